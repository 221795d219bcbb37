// C31: cost function adapters compose as mathematics says.
// pbt-build: flavor=asan
#include <array>
#include <memory>

#include "ceres/ceres.h"
#include "ceres/normal_prior.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
#include "expr.h"
#include "pbt.h"

using pbt::Case;
using pbt::Str;
typedef long double LD;

// A cost function over a random program with exact Jacobians.
struct ProgramCost : ceres::CostFunction {
  expr::Program p;
  bool fail = false;
  mutable int calls = 0;
  ProgramCost(const expr::Program& p, const std::vector<int>& sizes) : p(p) {
    set_num_residuals(p.outputs.size());
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* b, double* r, double** J) const override {
    ++calls;
    if (fail) return false;
    std::vector<double> x;
    for (size_t i = 0; i < parameter_block_sizes().size(); ++i) for (int j = 0; j < parameter_block_sizes()[i]; ++j) x.push_back(b[i][j]);
    std::vector<LD> v;
    std::vector<std::vector<LD>> D;
    p.Reference(x.data(), &v, &D);
    for (int i = 0; i < num_residuals(); ++i) r[i] = (double)v[i];
    if (!J) return true;
    int k = 0;
    for (size_t b2 = 0; b2 < parameter_block_sizes().size(); ++b2) {
      const int s = parameter_block_sizes()[b2];
      if (J[b2]) for (int i = 0; i < num_residuals(); ++i) for (int j = 0; j < s; ++j) J[b2][i * s + j] = (double)D[i][k + j];
      k += s;
    }
    return true;
  }
};

// Reference composition outer(x, inner(x')): the program `outer` takes the
// inputs and the inner outputs.
struct Ref {
  std::vector<LD> val;
  std::vector<std::vector<LD>> jac;
  double scale = 1;
};
static Ref Eval(const expr::Program& p, const std::vector<double>& x) {
  Ref r;
  p.Reference(x.data(), &r.val, &r.jac);
  r.scale = expr::Scale(r.jac);
  for (LD v : r.val) r.scale = std::max(r.scale, std::fabs((double)v));
  return r;
}

// Exact-size evaluation of f, compared with (val, jac).
static void Check(Case& c, const ceres::CostFunction& f, const std::vector<int>& sizes, const std::vector<double>& x, const Ref& ref, const std::vector<bool>& want, bool null_array,
                  double tol, const std::string& who) {
  const int nb = sizes.size(), nres = ref.val.size();
  REQUIRE("declared-sizes", f.num_residuals() == nres && std::vector<int>(f.parameter_block_sizes().begin(), f.parameter_block_sizes().end()) == sizes, who);
  std::vector<std::unique_ptr<double[]>> pb(nb), jb(nb);
  std::vector<const double*> pp(nb);
  std::vector<double*> jp(nb, nullptr);
  int k = 0;
  for (int i = 0; i < nb; ++i) {
    pb[i].reset(new double[sizes[i]]);
    for (int j = 0; j < sizes[i]; ++j) pb[i][j] = x[k++];
    pp[i] = pb[i].get();
    if (want[i]) {
      jb[i].reset(new double[sizes[i] * nres]);
      for (int j = 0; j < sizes[i] * nres; ++j) jb[i][j] = 1e99;
      jp[i] = jb[i].get();
    }
  }
  std::unique_ptr<double[]> r(new double[nres]);
  for (int i = 0; i < nres; ++i) r[i] = 1e99;
  REQUIRE("evaluate", f.Evaluate(pp.data(), r.get(), null_array ? nullptr : jp.data()), who);
  for (int i = 0; i < nres; ++i) REQUIRE_CLOSE("residual", r[i], (double)ref.val[i], tol, ref.scale, who, " residual ", i);
  k = 0;
  for (int i = 0; i < nb; ++i)
    for (int j = 0; j < sizes[i]; ++j, ++k) {
      REQUIRE("input-modified", pb[i][j] == x[k], who);
      if (want[i] && !null_array)
        for (int q = 0; q < nres; ++q) REQUIRE_CLOSE("jacobian", jb[i][q * sizes[i] + j], (double)ref.jac[q][k], tol, ref.scale, who, " block ", i, " d r", q, "/d x", j);
    }
}
static void CheckAllRequests(Case& c, const ceres::CostFunction& f, const std::vector<int>& sizes, const std::vector<double>& x, const Ref& ref, double tol, const std::string& who) {
  std::vector<bool> all(sizes.size(), true), some(sizes.size());
  for (size_t i = 0; i < some.size(); ++i) some[i] = c.coin();
  Check(c, f, sizes, x, ref, all, false, tol, who + " all jacobians");
  Check(c, f, sizes, x, ref, some, false, tol, who + " some jacobians");
  Check(c, f, sizes, x, ref, all, true, tol, who + " residuals only");
}
static void CheckFailure(Case& c, const ceres::CostFunction& f, const std::vector<int>& sizes, const std::vector<double>& x, const std::string& who) {
  std::vector<const double*> pp;
  std::vector<std::vector<double>> jb;
  std::vector<double*> jp;
  int k = 0;
  for (int s : sizes) { pp.push_back(&x[k]); k += s; jb.emplace_back(s * f.num_residuals()); }
  for (auto& v : jb) jp.push_back(v.data());
  std::vector<double> r(f.num_residuals());
  REQUIRE("failure", !f.Evaluate(pp.data(), r.data(), c.coin() ? jp.data() : nullptr), who, ": the wrapped function failed");
}
static std::vector<double> Point(Case& c, int n) {
  std::vector<double> x(n);
  for (double& v : x) v = c.sym(2);
  return x;
}
// The composed reference: inputs x (n), inner takes x[perm] and outer takes
// [x, inner outputs].
static Ref Compose(const expr::Program& inner, const std::vector<int>& perm, const std::vector<LD>* /*unused*/, const expr::Program& outer, const std::vector<double>& x) {
  std::vector<double> xi;
  for (int i : perm) xi.push_back(x[i]);
  Ref a = Eval(inner, xi);
  std::vector<double> y = x;
  for (LD v : a.val) y.push_back((double)v);
  Ref b = Eval(outer, y);
  Ref r;
  r.val = b.val;
  r.scale = b.scale * std::max(1.0, a.scale) * 4;
  const int n = x.size();
  for (auto& row : b.jac) {
    std::vector<LD> o(row.begin(), row.begin() + n);
    for (size_t k = 0; k < a.val.size(); ++k)
      for (size_t j = 0; j < perm.size(); ++j) o[perm[j]] += row[n + k] * a.jac[k][j];
    r.jac.push_back(o);
  }
  return r;
}

// ---- DynamicCostFunctionToFunctor -----------------------------------------
struct DynComposite {
  std::shared_ptr<ceres::DynamicCostFunctionToFunctor> inner;
  const expr::Program* outer;
  std::vector<int> sizes, inner_sizes, perm;
  int inner_res;
  template <typename T>
  bool operator()(T const* const* b, T* r) const {
    std::vector<T> x;
    for (size_t i = 0; i < sizes.size(); ++i) for (int j = 0; j < sizes[i]; ++j) x.push_back(b[i][j]);
    std::vector<T> xi;
    for (int i : perm) xi.push_back(x[i]);
    std::vector<const T*> in;
    int k = 0;
    for (int s : inner_sizes) { in.push_back(&xi[k]); k += s; }
    std::vector<T> y(inner_res);
    if (!(*inner)(in.data(), y.data())) return false;
    for (const T& v : y) x.push_back(v);
    outer->Eval(x.data(), r);
    return true;
  }
};
PBT_PROP(dynamic_functor, 72000, 1200000) {
  std::vector<int> sizes(c.range(1, 3)), inner_sizes(c.range(1, 4));
  int n = 0, ni = 0;
  for (int& s : sizes) n += s = c.range(1, 3);
  for (int& s : inner_sizes) ni += s = c.range(1, 4);
  const int ires = c.range(1, 4), nres = c.range(1, 4);
  const expr::Program pi = expr::Gen(c, ni, ires, c.range(1, 8)), po = expr::Gen(c, n + ires, nres, c.range(1, 8));
  DynComposite f;
  auto* cost = new ProgramCost(pi, inner_sizes);
  if (c.coin()) f.inner = std::make_shared<ceres::DynamicCostFunctionToFunctor>(cost);
  else f.inner = std::make_shared<ceres::DynamicCostFunctionToFunctor>(std::unique_ptr<ceres::CostFunction>(cost));
  f.outer = &po;
  f.sizes = sizes;
  f.inner_sizes = inner_sizes;
  f.inner_res = ires;
  for (int i = 0; i < ni; ++i) f.perm.push_back(c.range(0, n - 1));
  const std::vector<double> x = Point(c, n);
  const Ref ref = Compose(pi, f.perm, nullptr, po, x);
  ceres::DynamicAutoDiffCostFunction<DynComposite, 3> ad(new DynComposite(f));
  for (int s : sizes) ad.AddParameterBlock(s);
  ad.SetNumResiduals(nres);
  c.note() << "inner " << ires << "x" << ni << " blocks " << inner_sizes.size() << ", outer " << nres << "x" << n;
  c.label(Str("inner blocks:", inner_sizes.size()));
  c.nontrivial();
  CheckAllRequests(c, ad, sizes, x, ref, 1e-12, "dynamic functor");
  cost->fail = true;
  CheckFailure(c, ad, sizes, x, "dynamic functor");
}

// ---- CostFunctionToFunctor ------------------------------------------------
template <int R, int... Ns>
struct StaticComposite {
  std::shared_ptr<ceres::CostFunctionToFunctor<R, Ns...>> inner;
  const expr::Program* outer;
  std::vector<int> sizes, inner_sizes, perm;
  int inner_res;
  template <typename T, size_t... I>
  bool Call(const std::vector<const T*>& in, T* y, std::index_sequence<I...>) const { return (*inner)(in[I]..., y); }
  template <typename T>
  bool operator()(T const* const* b, T* r) const {
    std::vector<T> x;
    for (size_t i = 0; i < sizes.size(); ++i) for (int j = 0; j < sizes[i]; ++j) x.push_back(b[i][j]);
    std::vector<T> xi;
    for (int i : perm) xi.push_back(x[i]);
    std::vector<const T*> in;
    int k = 0;
    for (int s : inner_sizes) { in.push_back(&xi[k]); k += s; }
    std::vector<T> y(inner_res);
    if (!Call(in, y.data(), std::make_index_sequence<sizeof...(Ns)>{})) return false;
    for (const T& v : y) x.push_back(v);
    outer->Eval(x.data(), r);
    return true;
  }
};
template <int R, int... Ns>
static void CheckStatic(Case& c) {
  typedef StaticComposite<R, Ns...> F;
  const std::vector<int> inner_sizes = {Ns...};
  int ni = 0, n = 0;
  for (int s : inner_sizes) ni += s;
  std::vector<int> sizes(c.range(1, 3));
  for (int& s : sizes) n += s = c.range(1, 3);
  const int ires = R == ceres::DYNAMIC ? c.range(1, 4) : R, nres = c.range(1, 3);
  const expr::Program pi = expr::Gen(c, ni, ires, c.range(1, 8)), po = expr::Gen(c, n + ires, nres, c.range(1, 8));
  F f;
  auto* cost = new ProgramCost(pi, inner_sizes);
  f.inner = std::make_shared<ceres::CostFunctionToFunctor<R, Ns...>>(cost);
  f.outer = &po;
  f.sizes = sizes;
  f.inner_sizes = inner_sizes;
  f.inner_res = ires;
  for (int i = 0; i < ni; ++i) f.perm.push_back(c.range(0, n - 1));
  const std::vector<double> x = Point(c, n);
  const Ref ref = Compose(pi, f.perm, nullptr, po, x);
  ceres::DynamicAutoDiffCostFunction<F> ad(new F(f));
  for (int s : sizes) ad.AddParameterBlock(s);
  ad.SetNumResiduals(nres);
  c.note() << "static inner " << ires << "x" << ni << " blocks " << inner_sizes.size() << ", outer " << nres << "x" << n;
  c.label(Str("inner blocks:", inner_sizes.size()));
  c.nontrivial();
  CheckAllRequests(c, ad, sizes, x, ref, 1e-12, "static functor");
  cost->fail = true;
  CheckFailure(c, ad, sizes, x, "static functor");
}
PBT_PROP(static_functor, 72000, 1200000) {
  switch (c.range(0, 6)) {
    case 0: CheckStatic<1, 1>(c); break;
    case 1: CheckStatic<2, 3>(c); break;
    case 2: CheckStatic<ceres::DYNAMIC, 2, 1>(c); break;
    case 3: CheckStatic<3, 1, 2, 3>(c); break;
    case 4: CheckStatic<2, 1, 1, 1, 1, 1>(c); break;
    case 5: CheckStatic<ceres::DYNAMIC, 4, 2, 1, 1>(c); break;
    default: CheckStatic<1, 1, 2, 1, 2, 1, 2, 1, 1, 1, 1>(c);
  }
}

// ---- ConditionedCostFunction ----------------------------------------------
PBT_PROP(conditioned, 72000, 1200000) {
  std::vector<int> sizes(c.range(1, 4));
  int n = 0;
  for (int& s : sizes) n += s = c.range(1, 4);
  const int nres = c.range(1, 6);
  const expr::Program p = expr::Gen(c, n, nres, c.range(1, 10));
  const std::vector<double> x = Point(c, n);
  Ref ref = Eval(p, x);
  std::vector<ceres::CostFunction*> cond(nres, nullptr);
  std::vector<expr::Program> progs;
  std::vector<int> which(nres, -1);
  const int distinct = c.range(0, 3);
  std::vector<ProgramCost*> pool;
  for (int i = 0; i < distinct; ++i) {
    progs.push_back(expr::Gen(c, 1, 1, c.range(1, 5)));
    pool.push_back(new ProgramCost(progs.back(), {1}));
  }
  for (int i = 0; i < nres; ++i) if (distinct && c.chance(3, 4)) { which[i] = c.range(0, distinct - 1); cond[i] = pool[which[i]]; }
  bool any = false, unused = false;
  for (int k = 0; k < distinct; ++k) {
    bool used = false;
    for (int i = 0; i < nres; ++i) used |= which[i] == k;
    if (!used) { delete pool[k]; pool[k] = nullptr; }
    any |= used;
    unused |= !used;
  }
  double s = ref.scale;
  for (int i = 0; i < nres; ++i) {
    if (which[i] < 0) continue;
    Ref g = Eval(progs[which[i]], {(double)ref.val[i]});
    s = std::max(s, ref.scale * g.scale * 4);
    ref.val[i] = g.val[0];
    for (LD& v : ref.jac[i]) v *= g.jac[0][0];
  }
  ref.scale = s;
  auto* cost = new ProgramCost(p, sizes);
  const bool own = c.coin();
  {
    ceres::ConditionedCostFunction cc(cost, cond, own ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP);
    c.note() << "conditioned " << nres << "x" << n << " conditioners " << distinct;
    c.label(any ? "conditioned" : "no conditioner");
    c.nontrivial(any);
    CheckAllRequests(c, cc, sizes, x, ref, 1e-12, "conditioned");
    // failure of the wrapped function or of a conditioner in use
    ProgramCost* victim = cost;
    for (ProgramCost* q : pool) if (q && c.coin()) victim = q;
    victim->fail = true;
    CheckFailure(c, cc, sizes, x, "conditioned");
    victim->fail = false;
  }
  if (!own) {
    delete cost;
    for (ProgramCost* q : pool) delete q;
  }
}

// ---- NormalPrior ----------------------------------------------------------
PBT_PROP(normal_prior, 48000, 800000) {
  const int n = c.range(1, 6), m = c.range(1, 6);
  ceres::Matrix A(m, n);
  ceres::Vector b(n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = c.sym(3);
  for (int j = 0; j < n; ++j) b(j) = c.sym(3);
  const std::vector<double> x = Point(c, n);
  Ref ref;
  for (int i = 0; i < m; ++i) {
    LD v = 0;
    std::vector<LD> row;
    for (int j = 0; j < n; ++j) { v += (LD)A(i, j) * ((LD)x[j] - b(j)); row.push_back(A(i, j)); }
    ref.val.push_back(v);
    ref.jac.push_back(row);
  }
  ref.scale = 20;
  ceres::NormalPrior np(A, b);
  A.setConstant(7);  // the prior keeps its own copy
  c.note() << "normal prior " << m << "x" << n;
  c.nontrivial();
  CheckAllRequests(c, np, {n}, x, ref, 1e-14, "normal prior");
}

// ---- TinySolverCostFunctionAdapter ----------------------------------------
template <int R, int N, int MR, int MN>
static void CheckTiny(Case& c) {
  const int m = R > 0 ? R : c.range(1, MR > 0 ? MR : 8), n = N > 0 ? N : c.range(1, MN > 0 ? MN : 6);
  const expr::Program p = expr::Gen(c, n, m, c.range(1, 10));
  const std::vector<double> x = Point(c, n);
  const Ref ref = Eval(p, x);
  ProgramCost cost(p, {n});
  ceres::TinySolverCostFunctionAdapter<R, N, MR, MN> t(cost);
  c.note() << "tiny adapter " << m << "x" << n << " static " << R << "," << N;
  c.nontrivial();
  REQUIRE("declared-sizes", t.NumResiduals() == m && t.NumParameters() == n, t.NumResiduals(), " ", t.NumParameters());
  std::unique_ptr<double[]> r(new double[m]), J(new double[m * n]), xb(new double[n]);
  for (int rep = 0; rep < 2; ++rep) {
    for (int i = 0; i < n; ++i) xb[i] = x[i];
    for (int i = 0; i < m * n; ++i) J[i] = 1e99;
    REQUIRE("evaluate", t(xb.get(), r.get(), J.get()), "");
    for (int i = 0; i < m; ++i) {
      REQUIRE_CLOSE("residual", r[i], (double)ref.val[i], 1e-14, ref.scale, i);
      for (int j = 0; j < n; ++j) REQUIRE_CLOSE("jacobian", J[j * m + i], (double)ref.jac[i][j], 1e-14, ref.scale, i, ",", j);
    }
    for (int i = 0; i < m; ++i) r[i] = 1e99;
    REQUIRE("evaluate", t(xb.get(), r.get(), nullptr), "");
    for (int i = 0; i < m; ++i) REQUIRE_CLOSE("residual", r[i], (double)ref.val[i], 1e-14, ref.scale, i);
  }
  cost.fail = true;
  REQUIRE("failure", !t(xb.get(), r.get(), c.coin() ? J.get() : nullptr), "");
}
PBT_PROP(tiny_adapter, 48000, 800000) {
  constexpr int D = Eigen::Dynamic;
  switch (c.range(0, 5)) {
    case 0: CheckTiny<2, 3, 2, 3>(c); break;
    case 1: CheckTiny<D, D, D, D>(c); break;
    case 2: CheckTiny<D, 4, D, 4>(c); break;
    case 3: CheckTiny<5, D, 5, D>(c); break;
    case 4: CheckTiny<D, D, 6, 5>(c); break;
    default: CheckTiny<1, 1, 1, 1>(c);
  }
}

PBT_MAIN("C31", "a real composition is evaluated (at least one conditioner, functor or prior in play)")
