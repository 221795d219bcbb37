// C11: numeric differentiation is accurate and leaves inputs alone.
// pbt-build: flavor=asan
#include <array>
#include <cfloat>
#include <cstring>
#include <memory>

#include "ceres/ceres.h"
#include "expr.h"
#include "pbt.h"

using pbt::Case;
using pbt::Str;
typedef long double LD;

struct Log {
  std::vector<std::vector<double>> points;
  int fail_at = -1;
};
struct Functor {
  const expr::Program* p;
  std::vector<int> sizes;
  Log* log;
  bool Run(const double* const* b, double* r) const {
    std::vector<double> x(p->num_inputs);
    int k = 0;
    for (size_t i = 0; i < sizes.size(); ++i) for (int j = 0; j < sizes[i]; ++j) x[k++] = b[i][j];
    const bool ok = static_cast<int>(log->points.size()) != log->fail_at;
    log->points.push_back(x);
    if (!ok) return false;
    p->Eval(x.data(), r);
    return true;
  }
  template <typename... Rest>
  bool operator()(const double* first, Rest... rest) const {
    const double* b[] = {first, static_cast<const double*>(rest)...};
    return Run(b, const_cast<double*>(b[sizeof...(Rest)]));
  }
};
struct DynFunctor : Functor { bool operator()(double const* const* b, double* r) const { return Run(b, r); } };
struct FirstOrder : Functor { bool operator()(const double* x, double* r) const { const double* b[1] = {x}; return Run(b, r); } };
// A cost function used as functor.
struct CostFunctor : ceres::CostFunction, Functor {
  CostFunctor(const Functor& f, int nres) : Functor(f) {
    set_num_residuals(nres);
    for (int s : f.sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* b, double* r, double**) const override { return Run(b, r); }
};

struct Truth {
  int method;
  ceres::NumericDiffOptions opt;
  std::vector<double> x;
  std::vector<LD> val;
  std::vector<std::vector<LD>> jac;
  double fscale;                           // size of the quantities that get rounded
  std::vector<std::vector<double>> bound;  // allowed error [residual][parameter]
  std::vector<double> step;                // largest perturbation per parameter
};

// Documented step: |x| * relative step, at least sqrt(epsilon) (Ridders: at
// least the relative initial step itself).
static Truth MakeTruth(const expr::Program& p, const std::vector<double>& x, int method, const ceres::NumericDiffOptions& o, bool poly) {
  Truth t;
  t.method = method;
  t.opt = o;
  t.x = x;
  p.Reference(x.data(), &t.val, &t.jac);
  const int n = x.size(), m = t.val.size();
  t.fscale = expr::Scale(t.jac);
  double xs = 1;
  for (double v : x) xs = std::max(xs, std::fabs(v));
  // magnitude of every intermediate value, over a neighbourhood
  {
    std::vector<double> nodes(p.nodes.size());
    expr::Program q = p;
    q.outputs.clear();
    for (size_t i = 0; i < p.nodes.size(); ++i) q.outputs.push_back(i);
    q.Eval(x.data(), nodes.data());
    double s = 1;
    for (double v : nodes) s = std::max(s, std::fabs(v));
    t.fscale = std::max(s * t.fscale, t.fscale * xs) * 4;
  }
  t.bound.assign(m, std::vector<double>(n));
  t.step.resize(n);
  for (int j = 0; j < n; ++j) {
    if (method == ceres::RIDDERS) {
      const double h0 = std::max(std::sqrt(DBL_EPSILON), std::max(1.0, std::fabs(x[j])) * o.ridders_relative_initial_step_size);
      t.step[j] = h0 * std::pow(o.ridders_step_shrink_factor, o.max_num_ridders_extrapolations / 2);
    } else {
      t.step[j] = std::max(std::sqrt(DBL_EPSILON), std::fabs(x[j]) * o.relative_step_size);
    }
    const double h = t.step[j];
    auto at = [&](double d) {
      // long double evaluation point: use Reference on a perturbed double
      std::vector<double> y = x;
      y[j] += d;
      std::vector<LD> v;
      std::vector<std::vector<LD>> J;
      p.Reference(y.data(), &v, &J);
      std::vector<LD> g(m);
      for (int i = 0; i < m; ++i) g[i] = J[i][j];
      return g;
    };
    std::vector<double> trunc(m, 0.0);
    if (method != ceres::RIDDERS) {
      // f(x+h)-f(x) over h is a mean of f' over the interval.
      for (double q : {1.0, 0.75, 0.5, 0.25}) {
        const auto a = at(h * q), b = at(-h * q);
        for (int i = 0; i < m; ++i) {
          double e;
          if (method == ceres::FORWARD) e = std::max(std::fabs((double)(a[i] - t.jac[i][j])), std::fabs((double)(b[i] - t.jac[i][j])));
          else e = std::fabs((double)((a[i] + b[i]) / 2 - t.jac[i][j]));
          trunc[i] = std::max(trunc[i], e);
        }
      }
    }
    for (int i = 0; i < m; ++i) {
      if (method == ceres::RIDDERS) {
        const double hmin = h / std::pow(o.ridders_step_shrink_factor, o.max_num_ridders_extrapolations);
        t.bound[i][j] = (poly ? 1e-9 : 2e-4) * t.fscale + 1e3 * DBL_EPSILON * t.fscale / hmin;
      } else {
        t.bound[i][j] = 2 * trunc[i] + 200 * DBL_EPSILON * t.fscale / h;
      }
    }
  }
  return t;
}

static void CheckPoints(Case& c, const Log& log, const Truth& t, const std::vector<bool>& wanted, const std::string& who) {
  for (const auto& y : log.points) {
    int diff = -1, nd = 0;
    for (size_t j = 0; j < y.size(); ++j)
      if (std::memcmp(&y[j], &t.x[j], sizeof(double)) != 0) { diff = j; ++nd; }
    REQUIRE("one-coordinate", nd <= 1, who, ": ", nd, " coordinates were perturbed at once");
    if (nd == 1) {
      REQUIRE("perturbed-unrequested", wanted[diff], who, ": coordinate ", diff);
      REQUIRE("step-size", std::fabs(y[diff] - t.x[diff]) <= t.step[diff] * (1 + 1e-6) + 1e-15 * std::fabs(t.x[diff]), who, ": perturbation ", y[diff] - t.x[diff],
              " larger than the documented ", t.step[diff]);
    }
  }
}

static void CheckCost(Case& c, const ceres::CostFunction& f, const std::vector<int>& sizes, int nres, const Truth& t, const std::vector<bool>& want, Log* log,
                      std::vector<double>* jout, const std::string& who) {
  const int nb = sizes.size();
  std::vector<std::unique_ptr<double[]>> pb(nb), jb(nb);
  std::vector<const double*> pp(nb);
  std::vector<double*> jp(nb, nullptr);
  std::vector<bool> wanted;
  int k = 0;
  for (int i = 0; i < nb; ++i) {
    pb[i].reset(new double[sizes[i]]);
    for (int j = 0; j < sizes[i]; ++j) { pb[i][j] = t.x[k++]; wanted.push_back(want[i]); }
    pp[i] = pb[i].get();
    if (want[i]) {
      jb[i].reset(new double[sizes[i] * nres]);
      for (int j = 0; j < sizes[i] * nres; ++j) jb[i][j] = 1e99;
      jp[i] = jb[i].get();
    }
  }
  std::unique_ptr<double[]> r(new double[nres]);
  log->points.clear();
  REQUIRE("evaluate", f.Evaluate(pp.data(), r.get(), jp.data()), who);
  for (int i = 0; i < nres; ++i) REQUIRE_CLOSE("residual", r[i], (double)t.val[i], 1e-13, t.fscale, who, " residual ", i);
  CheckPoints(c, *log, t, wanted, who);
  k = 0;
  jout->clear();
  for (int i = 0; i < nb; ++i) {
    for (int j = 0; j < sizes[i]; ++j, ++k) {
      REQUIRE("input-modified", std::memcmp(&pb[i][j], &t.x[k], sizeof(double)) == 0, who, " block ", i);
      if (want[i])
        for (int q = 0; q < nres; ++q) {
          const double e = std::fabs(jb[i][q * sizes[i] + j] - (double)t.jac[q][k]);
          REQUIRE("jacobian", e <= t.bound[q][k], who, " block ", i, " d r", q, "/d x", j, " = ", jb[i][q * sizes[i] + j], " true ", (double)t.jac[q][k], " error ", e, " bound ", t.bound[q][k]);
          jout->push_back(jb[i][q * sizes[i] + j]);
        }
    }
  }
}

template <ceres::NumericDiffMethodType M, int R, int... Ns>
static std::unique_ptr<ceres::CostFunction> MakeStatic(const Functor& f, int nres, const ceres::NumericDiffOptions& o, bool as_cost) {
  if (as_cost) return std::make_unique<ceres::NumericDiffCostFunction<CostFunctor, M, R, Ns...>>(new CostFunctor(f, nres), ceres::TAKE_OWNERSHIP, nres, o);
  return std::make_unique<ceres::NumericDiffCostFunction<Functor, M, R, Ns...>>(new Functor(f), ceres::TAKE_OWNERSHIP, nres, o);
}
typedef std::unique_ptr<ceres::CostFunction> (*Maker)(const Functor&, int, const ceres::NumericDiffOptions&, bool);
struct Layout { int res; std::vector<int> sizes; Maker make[3]; };
#define LAY(R, ...) {R, {__VA_ARGS__}, {&MakeStatic<ceres::CENTRAL, R, __VA_ARGS__>, &MakeStatic<ceres::FORWARD, R, __VA_ARGS__>, &MakeStatic<ceres::RIDDERS, R, __VA_ARGS__>}}
static const std::vector<Layout>& Layouts() {
  static const std::vector<Layout> l = {LAY(1, 1), LAY(2, 3), LAY(3, 1, 2), LAY(1, 2, 1, 3), LAY(-1, 3, 2), LAY(4, 1, 1, 1, 1, 1), LAY(7, 5)};
  return l;
}
static const ceres::NumericDiffMethodType kMethods[] = {ceres::CENTRAL, ceres::FORWARD, ceres::RIDDERS};
static const char* kNames[] = {"central", "forward", "ridders"};

// Polynomials of low degree (every node's degree is tracked).
static expr::Program Poly(Case& c, int inputs, int outputs) {
  expr::Program p;
  p.num_inputs = inputs;
  std::vector<int> deg;
  for (int i = 0; i < inputs; ++i) { p.nodes.push_back({expr::kVar, i, 0, 0}); deg.push_back(1); }
  p.nodes.push_back({expr::kConst, 0, 0, c.pick({1.0, -0.5, 2.0})});
  deg.push_back(0);
  const int ops = c.range(2, 12);
  for (int k = 0; k < ops; ++k) {
    const int n = p.nodes.size(), a = c.range(0, n - 1), b = c.range(0, n - 1);
    int op = c.pick({expr::kAdd, expr::kSub, expr::kMul, expr::kMul, expr::kScale});
    if (op == expr::kMul && deg[a] + deg[b] > 4) op = expr::kAdd;
    p.nodes.push_back({op, a, b, op == expr::kScale ? c.pick({0.5, -1.5, 2.0}) : 0.0});
    deg.push_back(op == expr::kMul ? deg[a] + deg[b] : op == expr::kScale ? deg[a] : std::max(deg[a], deg[b]));
  }
  const int n = p.nodes.size();
  for (int o = 0; o < outputs; ++o) p.outputs.push_back(n - 1 - c.range(0, std::min(n - 1, outputs + 2)));
  return p;
}
static ceres::NumericDiffOptions Options(Case& c, int method, bool poly) {
  ceres::NumericDiffOptions o;
  // Ridders' method presupposes an initial step inside the function's region
  // of smoothness; the random programs have features of size about one.
  if (method == 2 && !poly) o.ridders_relative_initial_step_size = c.pick({1e-4, 1e-3});
  if (c.coin()) return o;
  o.relative_step_size = c.pick({1e-6, 1e-5, 1e-4, 1e-7});
  if (poly) {
    o.ridders_relative_initial_step_size = c.pick({1e-2, 1e-1, 1e-3});
    o.max_num_ridders_extrapolations = c.range(5, 12);
    o.ridders_step_shrink_factor = c.pick({2.0, 1.5, 3.0});
  }
  o.ridders_epsilon = c.pick({1e-12, 1e-10, 1e-14});
  return o;
}
static std::vector<double> Point(Case& c, int n, bool any = true) {
  std::vector<double> x(n);
  const bool big = any && c.chance(1, 8);
  for (double& v : x) v = c.sym(big ? 30 : 2);
  return x;
}

static void Failures(Case& c, const ceres::CostFunction& f, const std::vector<int>& sizes, int nres, const std::vector<double>& x, Log* log, bool adaptive, const std::string& who) {
  // Count the evaluations of a successful call, then make one of them fail.
  std::vector<const double*> pp;
  std::vector<std::vector<double>> jb;
  std::vector<double*> jp;
  int k = 0;
  for (int s : sizes) { pp.push_back(&x[k]); k += s; jb.emplace_back(s * nres); }
  for (auto& v : jb) jp.push_back(v.data());
  std::vector<double> r(nres);
  log->points.clear();
  log->fail_at = -1;
  f.Evaluate(pp.data(), r.data(), jp.data());
  const int calls = log->points.size();
  const int n = k;
  REQUIRE("evaluation-count", calls >= n + 1, who, ": ", calls, " evaluations for ", n, " parameters");
  log->points.clear();
  log->fail_at = c.range(0, calls - 1);
  const int at = log->fail_at;
  const std::vector<double> before = x;
  const bool ok = f.Evaluate(pp.data(), r.data(), jp.data());
  log->fail_at = -1;
  REQUIRE("failure", !ok, who, ": evaluation ", at, " of ", calls, " failed, yet the Jacobian was reported as valid");
  REQUIRE("input-modified", x == before, who);
  log->points.clear();
  log->fail_at = 0;
  const bool ok0 = f.Evaluate(pp.data(), r.data(), c.coin() ? jp.data() : nullptr);
  log->fail_at = -1;
  REQUIRE("failure", !ok0, who, ": the functor failed at the base point");
}

PBT_PROP(static_layouts, 40000, 1000000) {
  const Layout& l = c.pick(Layouts());
  const int mi = c.range(0, 2);
  const int nres = l.res == ceres::DYNAMIC ? c.range(1, 12) : l.res;
  int n = 0;
  for (int s : l.sizes) n += s;
  const bool poly = c.coin();
  const expr::Program p = poly ? Poly(c, n, nres) : expr::Gen(c, n, nres, c.range(1, mi == 2 ? 5 : 12));
  Log log;
  Functor f{&p, l.sizes, &log};
  const std::vector<double> x = Point(c, n, mi != 2 || poly);
  const ceres::NumericDiffOptions o = Options(c, mi, poly);
  const Truth t = MakeTruth(p, x, kMethods[mi], o, poly);
  const bool as_cost = c.chance(1, 4);
  auto cf = l.make[mi](f, nres, o, as_cost);
  const std::string who = Str(kNames[mi], poly ? " polynomial" : " smooth", as_cost ? " cost function" : "");
  c.label(who);
  c.note() << who << " residuals " << nres << " parameters " << n << " blocks " << l.sizes.size();
  bool any = false;
  for (auto& row : t.jac) for (LD v : row) any |= v != 0;
  c.nontrivial(any);
  REQUIRE("declared-sizes", cf->num_residuals() == nres && std::vector<int>(cf->parameter_block_sizes().begin(), cf->parameter_block_sizes().end()) == l.sizes, "");
  std::vector<bool> all(l.sizes.size(), true), some(l.sizes.size());
  for (size_t i = 0; i < some.size(); ++i) some[i] = c.coin();
  std::vector<double> j1, j2;
  CheckCost(c, *cf, l.sizes, nres, t, all, &log, &j1, who);
  CheckCost(c, *cf, l.sizes, nres, t, some, &log, &j2, who);
  Failures(c, *cf, l.sizes, nres, x, &log, mi == 2, who);
}

template <ceres::NumericDiffMethodType M>
static std::unique_ptr<ceres::DynamicCostFunction> MakeDyn(const DynFunctor& f, const ceres::NumericDiffOptions& o) {
  return std::make_unique<ceres::DynamicNumericDiffCostFunction<DynFunctor, M>>(new DynFunctor(f), ceres::TAKE_OWNERSHIP, o);
}
PBT_PROP(dynamic_layouts, 30000, 800000) {
  const int mi = c.range(0, 2);
  // Half the time a layout that also exists statically, to compare the two.
  const Layout* l = c.coin() ? &c.pick(Layouts()) : nullptr;
  std::vector<int> sizes = l ? l->sizes : std::vector<int>(c.range(1, 6));
  if (!l) for (int& s : sizes) s = c.range(1, 5);
  const int nres = l && l->res > 0 ? l->res : c.range(1, 8);
  int n = 0;
  for (int s : sizes) n += s;
  const bool poly = c.coin();
  const expr::Program p = poly ? Poly(c, n, nres) : expr::Gen(c, n, nres, c.range(1, mi == 2 ? 5 : 12));
  Log log;
  DynFunctor f;
  f.p = &p; f.sizes = sizes; f.log = &log;
  const std::vector<double> x = Point(c, n, mi != 2 || poly);
  const ceres::NumericDiffOptions o = Options(c, mi, poly);
  const Truth t = MakeTruth(p, x, kMethods[mi], o, poly);
  auto cf = mi == 0 ? MakeDyn<ceres::CENTRAL>(f, o) : mi == 1 ? MakeDyn<ceres::FORWARD>(f, o) : MakeDyn<ceres::RIDDERS>(f, o);
  for (int s : sizes) cf->AddParameterBlock(s);
  cf->SetNumResiduals(nres);
  const std::string who = Str("dynamic ", kNames[mi], poly ? " polynomial" : " smooth");
  c.label(who);
  c.note() << who << " residuals " << nres << " parameters " << n << " blocks " << sizes.size();
  bool any = false;
  for (auto& row : t.jac) for (LD v : row) any |= v != 0;
  c.nontrivial(any);
  std::vector<bool> all(sizes.size(), true), some(sizes.size());
  for (size_t i = 0; i < some.size(); ++i) some[i] = c.coin();
  std::vector<double> j1, j2;
  CheckCost(c, *cf, sizes, nres, t, all, &log, &j1, who);
  CheckCost(c, *cf, sizes, nres, t, some, &log, &j2, who);
  Failures(c, *cf, sizes, nres, x, &log, mi == 2, who);
}

template <ceres::NumericDiffMethodType M, int N>
static std::unique_ptr<ceres::FirstOrderFunction> MakeFo(const FirstOrder& f, int n, const ceres::NumericDiffOptions& o) {
  if constexpr (N == ceres::DYNAMIC) return std::make_unique<ceres::NumericDiffFirstOrderFunction<FirstOrder, M>>(std::make_unique<FirstOrder>(f), n, ceres::TAKE_OWNERSHIP, o);
  else return std::make_unique<ceres::NumericDiffFirstOrderFunction<FirstOrder, M, N>>(std::make_unique<FirstOrder>(f), o);
}
PBT_PROP(first_order, 20000, 500000) {
  const int mi = c.range(0, 2);
  const int which = c.range(0, 3);
  const int n = which == 0 ? 1 : which == 1 ? 4 : c.range(1, 9);
  const bool poly = c.coin();
  const expr::Program p = poly ? Poly(c, n, 1) : expr::Gen(c, n, 1, c.range(1, mi == 2 ? 5 : 12));
  Log log;
  FirstOrder f;
  f.p = &p; f.sizes = {n}; f.log = &log;
  const std::vector<double> x = Point(c, n, mi != 2 || poly);
  const ceres::NumericDiffOptions o = Options(c, mi, poly);
  const Truth t = MakeTruth(p, x, kMethods[mi], o, poly);
  std::unique_ptr<ceres::FirstOrderFunction> fo;
#define PICK(M) fo = which == 0 ? MakeFo<M, 1>(f, n, o) : which == 1 ? MakeFo<M, 4>(f, n, o) : MakeFo<M, ceres::DYNAMIC>(f, n, o)
  if (mi == 0) PICK(ceres::CENTRAL);
  else if (mi == 1) PICK(ceres::FORWARD);
  else PICK(ceres::RIDDERS);
  const std::string who = Str(kNames[mi], which < 2 ? " static" : " dynamic", " first order function");
  c.label(who);
  c.note() << who << " of " << n;
  c.nontrivial();
  REQUIRE("declared-sizes", fo->NumParameters() == n, "");
  std::unique_ptr<double[]> g(new double[n]), xb(new double[n]);
  for (int i = 0; i < n; ++i) { xb[i] = x[i]; g[i] = 1e99; }
  double cost = 1e99, cost2 = 1e99;
  REQUIRE("evaluate", fo->Evaluate(xb.get(), &cost, g.get()), who);
  CheckPoints(c, log, t, std::vector<bool>(n, true), who);
  const int calls = log.points.size();
  REQUIRE("evaluate", fo->Evaluate(xb.get(), &cost2, nullptr), who);
  REQUIRE_CLOSE("cost", cost, (double)t.val[0], 1e-13, t.fscale, who);
  REQUIRE("cost", cost == cost2, who);
  for (int i = 0; i < n; ++i) {
    REQUIRE("input-modified", xb[i] == x[i], who);
    REQUIRE("gradient", std::fabs(g[i] - (double)t.jac[0][i]) <= t.bound[0][i], who, " [", i, "] ", g[i], " true ", (double)t.jac[0][i], " bound ", t.bound[0][i]);
  }
  log.points.clear();
  log.fail_at = c.range(0, calls - 1);
  REQUIRE("failure", !fo->Evaluate(xb.get(), &cost, g.get()), who, ": evaluation ", log.fail_at, " of ", calls, " failed");
}

PBT_MAIN("C11", "the true Jacobian has a non-zero entry")
