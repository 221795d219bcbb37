// C10: automatic differentiation of cost functions is exact.
// pbt-build: flavor=asan
#include <array>
#include <memory>

#include "ceres/ceres.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "expr.h"
#include "pbt.h"

using pbt::Case;
using pbt::Str;
typedef long double LD;

// A functor over a random program; fails on demand.
struct Functor {
  const expr::Program* p;
  std::vector<int> sizes;
  int fail_at = -1;              // evaluation index that returns false
  mutable int calls = 0;
  template <typename T>
  bool Run(const T* const* b, T* r) const {
    if (calls++ == fail_at) return false;
    std::vector<T> x(p->num_inputs);
    int k = 0;
    for (size_t i = 0; i < sizes.size(); ++i) for (int j = 0; j < sizes[i]; ++j) x[k++] = b[i][j];
    p->Eval(x.data(), r);
    return true;
  }
  // static signature, any number of blocks
  template <typename T, typename... Rest>
  bool operator()(const T* first, Rest... rest) const {
    auto t = std::make_tuple(first, rest...);
    return Call<T>(t, std::make_index_sequence<sizeof...(Rest)>{});
  }
  template <typename T, typename Tuple, size_t... I>
  bool Call(const Tuple& t, std::index_sequence<I...>) const {
    const T* b[] = {static_cast<const T*>(std::get<I>(t))...};
    return Run<T>(b, const_cast<T*>(static_cast<const T*>(std::get<sizeof...(I)>(t))));
  }
};
struct DynFunctor : Functor {
  template <typename T>
  bool operator()(T const* const* b, T* r) const { return Run<T>(b, r); }
};
struct FirstOrder : Functor {
  template <typename T>
  bool operator()(const T* x, T* cost) const { const T* b[1] = {x}; return Run<T>(b, cost); }
};

struct Ref {
  std::vector<LD> val;
  std::vector<std::vector<LD>> jac;
  double scale;
};

// Evaluates a cost function with exact-size heap buffers and compares with the reference.
static void CheckCost(Case& c, const ceres::CostFunction& f, const std::vector<int>& sizes, int nres,
                      const std::vector<double>& x, const Ref& ref, const std::vector<bool>& want, bool null_array, const char* who) {
  const int nb = sizes.size();
  std::vector<std::unique_ptr<double[]>> pb(nb), jb(nb);
  std::vector<const double*> pp(nb);
  std::vector<double*> jp(nb, nullptr);
  int k = 0;
  for (int i = 0; i < nb; ++i) {
    pb[i].reset(new double[sizes[i]]);
    for (int j = 0; j < sizes[i]; ++j) pb[i][j] = x[k++];
    pp[i] = pb[i].get();
    if (want[i]) {
      jb[i].reset(new double[sizes[i] * nres]);
      for (int j = 0; j < sizes[i] * nres; ++j) jb[i][j] = 1e99;
      jp[i] = jb[i].get();
    }
  }
  std::unique_ptr<double[]> r(new double[nres]);
  for (int i = 0; i < nres; ++i) r[i] = 1e99;
  REQUIRE("evaluate", f.Evaluate(pp.data(), r.get(), null_array ? nullptr : jp.data()), who);
  for (int i = 0; i < nres; ++i) REQUIRE_CLOSE("residual", r[i], (double)ref.val[i], 1e-13, ref.scale, who, " residual ", i);
  k = 0;
  for (int i = 0; i < nb; ++i) {
    for (int j = 0; j < sizes[i]; ++j, ++k) {
      REQUIRE("input-modified", pb[i][j] == x[k], who, " block ", i);
      if (want[i] && !null_array)
        for (int q = 0; q < nres; ++q)
          REQUIRE_CLOSE("jacobian", jb[i][q * sizes[i] + j], (double)ref.jac[q][k], 1e-12, ref.scale, who, " block ", i, " d r", q, "/d x", j);
    }
  }
}

template <int R, int... Ns>
static std::unique_ptr<ceres::CostFunction> MakeStatic(const Functor& f, int nres) {
  if constexpr (R == ceres::DYNAMIC) return std::make_unique<ceres::AutoDiffCostFunction<Functor, R, Ns...>>(new Functor(f), nres);
  else return std::make_unique<ceres::AutoDiffCostFunction<Functor, R, Ns...>>(new Functor(f));
}
struct Layout { int res; std::vector<int> sizes; std::unique_ptr<ceres::CostFunction> (*make)(const Functor&, int); };
#define LAY(R, ...) {R, {__VA_ARGS__}, &MakeStatic<R, __VA_ARGS__>}
static const std::vector<Layout>& Layouts() {
  static const std::vector<Layout> l = {
      LAY(1, 1), LAY(2, 3), LAY(3, 1, 2), LAY(1, 2, 1, 3), LAY(4, 1, 1, 1, 1, 1), LAY(2, 4, 4), LAY(7, 5), LAY(25, 2, 1),
      LAY(-1, 3, 2), LAY(-1, 1), LAY(2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2), LAY(3, 30, 30), LAY(1, 6, 3, 3), LAY(-1, 2, 2, 2, 2, 2, 2)};
  return l;
}
static void Sizes(Case& c, const std::vector<int>& s, int nres) {
  c.note() << "residuals=" << nres << " blocks=[";
  for (int v : s) c.note() << v << " ";
  c.note() << "]";
}
static std::vector<double> Point(Case& c, int n) {
  std::vector<double> x(n);
  for (double& v : x) v = c.sym(2);
  return x;
}

PBT_PROP(static_layouts, 144000, 1200000) {
  const Layout& l = c.pick(Layouts());
  const int nres = l.res == ceres::DYNAMIC ? c.range(1, 30) : l.res;
  int n = 0;
  for (int s : l.sizes) n += s;
  const expr::Program p = expr::Gen(c, n, nres, c.range(2, 14));
  Functor f{&p, l.sizes};
  const std::vector<double> x = Point(c, n);
  Ref ref;
  p.Reference(x.data(), &ref.val, &ref.jac);
  ref.scale = expr::Scale(ref.jac);
  Sizes(c, l.sizes, nres);
  c.label(Str("blocks:", l.sizes.size()));
  bool any = false;
  for (auto& row : ref.jac) for (LD v : row) any |= v != 0;
  c.nontrivial(any);
  auto cf = l.make(f, nres);
  REQUIRE("declared-sizes", cf->num_residuals() == nres && std::vector<int>(cf->parameter_block_sizes().begin(), cf->parameter_block_sizes().end()) == l.sizes, "");
  std::vector<bool> all(l.sizes.size(), true), some(l.sizes.size());
  CheckCost(c, *cf, l.sizes, nres, x, ref, all, false, "all jacobians");
  for (size_t i = 0; i < some.size(); ++i) some[i] = c.coin();
  CheckCost(c, *cf, l.sizes, nres, x, ref, some, false, "some jacobians");
  CheckCost(c, *cf, l.sizes, nres, x, ref, all, true, "no jacobians");
  // failure is reported
  f.fail_at = 0;
  auto bad = l.make(f, nres);
  std::vector<const double*> pp;
  int k = 0;
  for (int s : l.sizes) { pp.push_back(&x[k]); k += s; }
  std::vector<double> r(nres);
  std::vector<std::vector<double>> jb;
  std::vector<double*> jp;
  for (int s : l.sizes) { jb.emplace_back(s * nres); }
  for (auto& v : jb) jp.push_back(v.data());
  REQUIRE("failure", !bad->Evaluate(pp.data(), r.data(), c.coin() ? jp.data() : nullptr), "the functor returned false");
}

template <int Stride>
static std::unique_ptr<ceres::DynamicCostFunction> MakeDyn(const DynFunctor& f) {
  return std::make_unique<ceres::DynamicAutoDiffCostFunction<DynFunctor, Stride>>(new DynFunctor(f));
}
PBT_PROP(dynamic_layouts, 180000, 1600000) {
  const int nb = c.range(1, 7);
  std::vector<int> sizes(nb);
  int n = 0;
  for (int& s : sizes) { s = c.chance(1, 12) ? c.range(5, 20) : c.range(1, 4); n += s; }
  const int nres = c.chance(1, 10) ? c.range(5, 40) : c.range(1, 4);
  const expr::Program p = expr::Gen(c, n, nres, c.range(2, 12));
  DynFunctor f;
  f.p = &p;
  f.sizes = sizes;
  const std::vector<double> x = Point(c, n);
  Ref ref;
  p.Reference(x.data(), &ref.val, &ref.jac);
  ref.scale = expr::Scale(ref.jac);
  Sizes(c, sizes, nres);
  std::unique_ptr<ceres::DynamicCostFunction> cf;
  const int stride = c.pick({4, 1, 2, 3, 5, 8});
  auto make = [&]() {
    switch (stride) {
      case 1: return MakeDyn<1>(f); case 2: return MakeDyn<2>(f); case 3: return MakeDyn<3>(f);
      case 5: return MakeDyn<5>(f); case 8: return MakeDyn<8>(f); default: return MakeDyn<4>(f);
    }
  };
  cf = make();
  for (int s : sizes) cf->AddParameterBlock(s);
  cf->SetNumResiduals(nres);
  c.note() << " stride " << stride;
  c.label(Str("stride:", stride));
  std::vector<bool> all(nb, true), some(nb);
  int active = 0;
  for (int i = 0; i < nb; ++i) { some[i] = c.chance(2, 3); if (some[i]) active += sizes[i]; }
  c.label(active > stride ? "multi-pass" : "single-pass");
  c.note() << " requested ";
  for (bool b : some) c.note() << b;
  c.nontrivial(active > 0);
  CheckCost(c, *cf, sizes, nres, x, ref, some, false, "some jacobians");
  CheckCost(c, *cf, sizes, nres, x, ref, all, false, "all jacobians");
  CheckCost(c, *cf, sizes, nres, x, ref, all, true, "no jacobians");
  // A failure in any pass is reported.
  const int passes = std::max(1, (n + stride - 1) / stride);
  f.fail_at = c.range(0, passes - 1);
  f.calls = 0;
  cf = make();
  for (int s : sizes) cf->AddParameterBlock(s);
  cf->SetNumResiduals(nres);
  std::vector<const double*> pp;
  int k = 0;
  for (int s : sizes) { pp.push_back(&x[k]); k += s; }
  std::vector<double> r(nres);
  std::vector<std::vector<double>> jb;
  std::vector<double*> jp;
  for (int s : sizes) jb.emplace_back(s * nres);
  for (auto& v : jb) jp.push_back(v.data());
  REQUIRE("failure", !cf->Evaluate(pp.data(), r.data(), jp.data()), "the functor failed in pass ", f.fail_at, " of ", passes);
}

// First-order functions.
template <int N>
static void CheckFirstOrder(Case& c) {
  const expr::Program p = expr::Gen(c, N, 1, c.range(2, 14));
  FirstOrder f;
  f.p = &p;
  f.sizes = {N};
  const std::vector<double> x = Point(c, N);
  Ref ref;
  p.Reference(x.data(), &ref.val, &ref.jac);
  ref.scale = expr::Scale(ref.jac);
  c.note() << "first order function of " << N;
  c.nontrivial();
  ceres::AutoDiffFirstOrderFunction<FirstOrder, N> fo(new FirstOrder(f));
  REQUIRE("declared-sizes", fo.NumParameters() == N, "");
  std::unique_ptr<double[]> g(new double[N]);
  double cost = 0, cost2 = 0;
  REQUIRE("evaluate", fo.Evaluate(x.data(), &cost, g.get()) && fo.Evaluate(x.data(), &cost2, nullptr), "");
  REQUIRE_CLOSE("cost", cost, (double)ref.val[0], 1e-13, ref.scale, "");
  REQUIRE_CLOSE("cost", cost2, (double)ref.val[0], 1e-13, ref.scale, "");
  for (int i = 0; i < N; ++i) REQUIRE_CLOSE("gradient", g[i], (double)ref.jac[0][i], 1e-12, ref.scale, i);
  f.fail_at = 0;
  ceres::AutoDiffFirstOrderFunction<FirstOrder, N> bad(new FirstOrder(f));
  REQUIRE("failure", !bad.Evaluate(x.data(), &cost, c.coin() ? g.get() : nullptr), "");
}
PBT_PROP(first_order, 48000, 400000) {
  switch (c.range(0, 3)) {
    case 0: CheckFirstOrder<1>(c); break;
    case 1: CheckFirstOrder<2>(c); break;
    case 2: CheckFirstOrder<5>(c); break;
    default: CheckFirstOrder<23>(c);
  }
}

// Manifolds: Plus(x, d) = x + A tanh-like program(x) d; Minus linear in y.
struct ManifoldFunctor {
  const expr::Program* m;  // ambient -> ambient*tangent matrix entries of Plus and Minus
  int na, nt;
  template <typename T> bool Plus(const T* x, const T* d, T* o) const {
    std::vector<T> A(m->outputs.size());
    m->Eval(x, A.data());
    for (int i = 0; i < na; ++i) {
      o[i] = x[i];
      for (int j = 0; j < nt; ++j) o[i] += A[i * nt + j] * sin(d[j]);
    }
    return true;
  }
  template <typename T> bool Minus(const T* y, const T* x, T* o) const {
    std::vector<T> A(m->outputs.size());
    m->Eval(x, A.data());
    for (int j = 0; j < nt; ++j) {
      o[j] = T(0.0);
      for (int i = 0; i < na; ++i) o[j] += A[i * nt + j] * sin(y[i] - x[i]);
    }
    return true;
  }
};
template <int NA, int NT>
static void CheckManifold(Case& c) {
  using std::sin;
  const expr::Program p = expr::Gen(c, NA, NA * NT, c.range(2, 14));
  ceres::AutoDiffManifold<ManifoldFunctor, NA, NT> man(new ManifoldFunctor{&p, NA, NT});
  const std::vector<double> x = Point(c, NA);
  std::vector<LD> A;
  std::vector<std::vector<LD>> dA;
  p.Reference(x.data(), &A, &dA);
  c.note() << "manifold " << NA << " -> " << NT;
  c.nontrivial();
  REQUIRE("declared-sizes", man.AmbientSize() == NA && man.TangentSize() == NT, "");
  std::unique_ptr<double[]> pj(new double[NA * NT]), mj(new double[NA * NT]);
  REQUIRE("evaluate", man.PlusJacobian(x.data(), pj.get()) && man.MinusJacobian(x.data(), mj.get()), "");
  for (int i = 0; i < NA; ++i)
    for (int j = 0; j < NT; ++j) {
      REQUIRE_CLOSE("plus-jacobian", pj[i * NT + j], (double)A[i * NT + j], 1e-12, 1, i, ",", j);
      REQUIRE_CLOSE("minus-jacobian", mj[j * NA + i], (double)A[i * NT + j], 1e-12, 1, i, ",", j);
    }
  double d[NT], o[NA], o2[NA], back[NT], back2[NT];
  for (double& v : d) v = c.sym(1);
  ManifoldFunctor direct{&p, NA, NT};
  direct.Plus(x.data(), d, o2);
  direct.Minus(o2, x.data(), back2);
  REQUIRE("evaluate", man.Plus(x.data(), d, o) && man.Minus(o2, x.data(), back), "");
  for (int i = 0; i < NA; ++i) REQUIRE_CLOSE("plus", o[i], o2[i], 1e-15, 1, "");
  for (int i = 0; i < NT; ++i) REQUIRE_CLOSE("minus", back[i], back2[i], 1e-14, 1, "");
}
PBT_PROP(manifold, 48000, 400000) {
  switch (c.range(0, 3)) {
    case 0: CheckManifold<1, 1>(c); break;
    case 1: CheckManifold<4, 3>(c); break;
    case 2: CheckManifold<3, 2>(c); break;
    default: CheckManifold<6, 1>(c);
  }
}

// Tiny-solver functions (column-major Jacobian).
struct TinyFunctor : FirstOrder {
  int nres;
  int NumResiduals() const { return nres; }
};
template <int R, int N, int MaxR>
static void CheckTiny(Case& c) {
  const int nres = R == Eigen::Dynamic ? c.range(1, MaxR == Eigen::Dynamic ? 9 : MaxR) : R;
  const expr::Program p = expr::Gen(c, N, nres, c.range(2, 14));
  TinyFunctor f;
  f.p = &p;
  f.sizes = {N};
  f.nres = nres;
  const std::vector<double> x = Point(c, N);
  Ref ref;
  p.Reference(x.data(), &ref.val, &ref.jac);
  ref.scale = expr::Scale(ref.jac);
  c.note() << "tiny solver function " << nres << "x" << N;
  c.nontrivial();
  ceres::TinySolverAutoDiffFunction<TinyFunctor, R, N, double, MaxR> t(f);
  REQUIRE("declared-sizes", t.NumResiduals() == nres, t.NumResiduals());
  for (int rep = 0; rep < 2; ++rep) {
    std::unique_ptr<double[]> r(new double[nres]), J(new double[nres * N]);
    REQUIRE("evaluate", t(x.data(), r.get(), J.get()), "");
    for (int i = 0; i < nres; ++i) {
      REQUIRE_CLOSE("tiny-residual", r[i], (double)ref.val[i], 1e-13, ref.scale, i);
      for (int j = 0; j < N; ++j) REQUIRE_CLOSE("tiny-jacobian", J[j * nres + i], (double)ref.jac[i][j], 1e-12, ref.scale, i, ",", j);
    }
    REQUIRE("evaluate", t(x.data(), r.get(), nullptr), "");
    for (int i = 0; i < nres; ++i) REQUIRE_CLOSE("tiny-residual", r[i], (double)ref.val[i], 1e-13, ref.scale, i);
  }
  TinyFunctor g = f;
  g.fail_at = 0;
  g.calls = 0;
  ceres::TinySolverAutoDiffFunction<TinyFunctor, R, N, double, MaxR> bad(g);
  std::vector<double> r(nres), J(nres * N);
  REQUIRE("failure", !bad(x.data(), r.data(), c.coin() ? J.data() : nullptr), "");
}
PBT_PROP(tiny, 48000, 400000) {
  switch (c.range(0, 4)) {
    case 0: CheckTiny<2, 3, 2>(c); break;
    case 1: CheckTiny<Eigen::Dynamic, 2, Eigen::Dynamic>(c); break;
    case 2: CheckTiny<Eigen::Dynamic, 4, 6>(c); break;
    case 3: CheckTiny<5, 1, 5>(c); break;
    default: CheckTiny<3, 3, 3>(c);
  }
}

PBT_MAIN("C10", "the reference Jacobian has a non-zero entry and at least one Jacobian is requested")
