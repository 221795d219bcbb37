// C30: gradient checking accepts right Jacobians and rejects wrong ones.
// pbt-build: flavor=rel
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <limits>
#include <set>

#include "ceres/ceres.h"
#include "ceres/gradient_checking_cost_function.h"
#include "ceres/is_close.h"
#include "ceres/parameter_block.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/residual_block.h"
#include "problem_gen.h"

namespace ci = ceres::internal;
using ceres::Matrix;
using ceres::Vector;
using Vec = std::vector<double>;

// r_i = k_i + sum_j [ a_ij x_j + b_ij sin(w_ij x_j + p_ij) ] + q_i x_u x_v over all
// scalars x_j of all blocks; a_ij = b_ij = 0 for entries that do not exist.
struct Term { double a = 0, b = 0, w = 1, p = 0; };
enum Fault { kNone, kEntry, kNullSpace, kNaN, kInf, kResidual, kFalseJ, kFalseNoJ, kFalse };
struct Fn {
  std::vector<int> sizes;
  int rows = 1, n = 0;
  std::vector<Term> t;  // rows x n
  Vec k, q;
  std::vector<int> u, v;
  Fault fault = kNone;
  int fk = 0, fi = 0, fj = 0;
  double delta = 0;
  Vec dir;  // kNullSpace: row added to row fi of block fk

  int Offset(int b) const { int o = 0; for (int i = 0; i < b; ++i) o += sizes[i]; return o; }
  void Residuals(const Vec& x, Vec* r) const {
    r->assign(rows, 0.0);
    for (int i = 0; i < rows; ++i) {
      double s = k[i];
      for (int j = 0; j < n; ++j) {
        const Term& m = t[i * n + j];
        if (m.a != 0 || m.b != 0) s += m.a * x[j] + m.b * std::sin(m.w * x[j] + m.p);
      }
      if (q[i] != 0) s += q[i] * x[u[i]] * x[v[i]];
      (*r)[i] = s;
    }
  }
  // The true Jacobian, rows x n.
  Matrix Jacobian(const Vec& x) const {
    Matrix J = Matrix::Zero(rows, n);
    for (int i = 0; i < rows; ++i) {
      for (int j = 0; j < n; ++j) {
        const Term& m = t[i * n + j];
        if (m.a != 0 || m.b != 0) J(i, j) += m.a + m.b * m.w * std::cos(m.w * x[j] + m.p);
      }
      if (q[i] != 0) { J(i, u[i]) += q[i] * x[v[i]]; J(i, v[i]) += q[i] * x[u[i]]; }
    }
    return J;
  }
  bool Structural(int i, int j) const {
    const Term& m = t[i * n + j];
    return m.a != 0 || m.b != 0 || (q[i] != 0 && (u[i] == j || v[i] == j));
  }
  // The Jacobian that the cost function claims.
  Matrix Claimed(const Vec& x) const {
    Matrix J = Jacobian(x);
    const int o = Offset(fk);
    if (fault == kEntry) J(fi, o + fj) += delta;
    if (fault == kNullSpace) for (int j = 0; j < sizes[fk]; ++j) J(fi, o + j) += delta * dir[j];
    if (fault == kNaN) J(fi, o + fj) = std::numeric_limits<double>::quiet_NaN();
    if (fault == kInf) J(fi, o + fj) = std::numeric_limits<double>::infinity();
    return J;
  }
};

// The largest |x| at which a Jacobian was asked for.
static std::atomic<double> g_max_x{0.0};

class Cost : public ceres::CostFunction {
 public:
  explicit Cost(const Fn* f) : f_(f) {
    set_num_residuals(f->rows);
    for (int s : f->sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* x, double* r, double** jac) const override {
    Vec all;
    for (size_t b = 0; b < f_->sizes.size(); ++b) all.insert(all.end(), x[b], x[b] + f_->sizes[b]);
    if (f_->fault == kFalse || (f_->fault == kFalseJ && jac) || (f_->fault == kFalseNoJ && !jac)) return false;
    Vec v;
    f_->Residuals(all, &v);
    std::copy(v.begin(), v.end(), r);
    if (!jac) return true;
    for (double a : all) {
      double m = g_max_x;
      while (std::fabs(a) > m && !g_max_x.compare_exchange_weak(m, std::fabs(a))) {}
    }
    if (f_->fault == kResidual) r[f_->fi] += f_->delta;
    const Matrix J = f_->Claimed(all);
    for (size_t b = 0; b < f_->sizes.size(); ++b)
      if (jac[b])
        for (int i = 0; i < f_->rows; ++i)
          for (int j = 0; j < f_->sizes[b]; ++j) jac[b][i * f_->sizes[b] + j] = J(i, f_->Offset(b) + j);
    return true;
  }
  const Fn* f_;
};

static Fn GenFn(pbt::Case& c, const std::vector<int>& sizes, bool monotone) {
  Fn f;
  f.sizes = sizes;
  for (int s : sizes) f.n += s;
  f.rows = c.size(1, 4);
  f.t.resize(f.rows * f.n);
  for (Term& m : f.t) {
    if (c.chance(1, 3)) continue;
    m.a = (c.coin() ? 1 : -1) * c.real(1, 3);
    // Solves move x far; Ridders' first steps are a third of |x| and must stay within a period.
    m.w = monotone ? c.real(0.005, 0.02) : c.real(0.5, 2);
    m.p = c.real(-3, 3);
    m.b = monotone ? c.real(0, 0.3) / m.w : c.chance(1, 2) ? c.sym(2) : 0;
  }
  for (int i = 0; i < f.rows; ++i) {
    f.k.push_back(c.sym(5));
    f.q.push_back(!monotone && c.chance(1, 3) ? c.sym(2) : 0);
    f.u.push_back(c.range(0, f.n - 1));
    f.v.push_back(c.range(0, f.n - 1));
  }
  return f;
}

// A manifold for a block of size n (nullptr: Euclidean) that suits the point x.
// Plus(x, d) = x + A d with a regular matrix A: the tangent space is as large as the ambient one, but not the same.
class SkewManifold final : public ceres::Manifold {
 public:
  SkewManifold(pbt::Case& c, int n) : a_(Matrix::Identity(n, n)) {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= i; ++j) a_(i, j) = i == j ? (c.coin() ? 1 : -1) * c.real(0.5, 2) : c.chance(1, 3) ? 0.0 : c.sym(2);
  }
  int AmbientSize() const override { return a_.rows(); }
  int TangentSize() const override { return a_.rows(); }
  bool Plus(const double* x, const double* d, double* y) const override {
    ceres::VectorRef(y, a_.rows()) = ceres::ConstVectorRef(x, a_.rows()) + a_ * ceres::ConstVectorRef(d, a_.rows());
    return true;
  }
  bool PlusJacobian(const double*, double* j) const override {
    ceres::MatrixRef(j, a_.rows(), a_.rows()) = a_;
    return true;
  }
  bool Minus(const double* y, const double* x, double* d) const override {
    ceres::VectorRef(d, a_.rows()) = a_.partialPivLu().solve(ceres::ConstVectorRef(y, a_.rows()) - ceres::ConstVectorRef(x, a_.rows()));
    return true;
  }
  bool MinusJacobian(const double*, double* j) const override {
    ceres::MatrixRef(j, a_.rows(), a_.rows()) = a_.inverse();
    return true;
  }
  Matrix a_;
};

static std::unique_ptr<ceres::Manifold> GenManifold(pbt::Case& c, int n, double* x, int* kind) {
  *kind = c.range(0, 5);
  if (*kind == 5) return std::make_unique<SkewManifold>(c, n);
  auto normalise = [&] {
    double s = 0;
    for (int i = 0; i < n; ++i) s += x[i] * x[i];
    s = std::sqrt(s);
    if (s < 1e-3) { x[0] += 1; s = 0; for (int i = 0; i < n; ++i) s += x[i] * x[i]; s = std::sqrt(s); }
    return s;
  };
  if (*kind == 1 && n >= 2) {
    std::vector<int> cst;
    for (int i = 0; i < n; ++i) if (c.coin()) cst.push_back(i);
    if (static_cast<int>(cst.size()) == n && c.coin()) cst.pop_back();
    return std::make_unique<ceres::SubsetManifold>(n, cst);
  }
  if (*kind == 2 && n >= 2) {
    normalise();
    return std::make_unique<ceres::SphereManifold<ceres::DYNAMIC>>(n);
  }
  if (*kind == 3 && n == 4) {
    const double s = normalise();
    for (int i = 0; i < n; ++i) x[i] /= s;
    if (c.coin()) return std::make_unique<ceres::EigenQuaternionManifold>();
    return std::make_unique<ceres::QuaternionManifold>();
  }
  if (*kind == 4) return std::make_unique<ceres::EuclideanManifold<ceres::DYNAMIC>>(n);
  *kind = 0;
  return nullptr;
}

struct Entry {
  int k, i, j;
  bool operator<(const Entry& o) const { return std::tie(k, i, j) < std::tie(o.k, o.i, o.j); }
};
static std::set<Entry> Named(const std::string& log) {
  std::set<Entry> s;
  for (size_t p = log.find("------ ("); p != std::string::npos; p = log.find("------ (", p + 1)) {
    Entry e;
    if (std::sscanf(log.c_str() + p, "------ (%d,%d,%d) Relative error worse", &e.k, &e.i, &e.j) == 3) s.insert(e);
  }
  return s;
}
static bool RefClose(double x, double y, double p, double* rel) {
  const double a = std::fabs(x - y);
  *rel = x == 0 || y == 0 ? a : a / std::max(std::fabs(x), std::fabs(y));
  return *rel < std::fabs(p);
}
template <typename A, typename B>
static bool SameBitsM(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      const double x = a(i, j), y = b(i, j);
      if (!(x == y || (std::isnan(x) && std::isnan(y)))) return false;
    }
  return true;
}

// Entries that must / must not be reported, given the claimed Jacobian.
struct Expect { std::set<Entry> bad, good; };
static Expect Classify(const Fn& f, const Vec& x, const std::vector<Matrix>& P, double prec, double noise) {
  Expect e;
  const Matrix T = f.Jacobian(x), U = f.Claimed(x);
  for (size_t k = 0; k < f.sizes.size(); ++k) {
    const int o = f.Offset(k), m = f.sizes[k];
    const Matrix Lt = T.middleCols(o, m) * P[k], Lu = U.middleCols(o, m) * P[k];
    for (int i = 0; i < f.rows; ++i)
      for (int l = 0; l < Lt.cols(); ++l) {
        bool dep = false, claimed = false;
        double mag = 0;
        for (int j = 0; j < m; ++j) {
          if (P[k](j, l) == 0) continue;
          dep |= f.Structural(i, o + j);
          claimed |= U(i, o + j) != 0;
          mag += (std::fabs(T(i, o + j)) + std::fabs(U(i, o + j)) + 1) * std::fabs(P[k](j, l));
        }
        const double u = Lu(i, l), t = Lt(i, l), n = dep ? noise * std::max(1.0, mag) : 0;
        const Entry id{static_cast<int>(k), i, l};
        if (!std::isfinite(u)) {  // NaN times zero may or may not be formed
          if (static_cast<int>(k) == f.fk && P[k](f.fj, l) != 0) e.bad.insert(id);
          continue;
        }
        const double rounding = 1e-14 * mag;  // of the product with the plus Jacobian
        if (!dep && !claimed) { e.good.insert(id); continue; }
        const double err = std::fabs(u - t), big = std::max(std::fabs(u), std::fabs(t));
        // The comparison is absolute when one of the two is exactly zero.
        const bool maybe_zero = !dep || !claimed || std::fabs(u) <= rounding || std::fabs(t) <= n + rounding;
        const double lo = maybe_zero ? std::min(big, 1.0) : big, hi = maybe_zero ? std::max(big, 1.0) : big;
        if (err - 10 * n - 10 * rounding >= 3 * prec * hi) e.bad.insert(id);
        else if (err + 10 * n + 10 * rounding <= prec * lo / 3) e.good.insert(id);
      }
  }
  return e;
}

PBT_PROP(probe, 150000, 4000000) {
  const int nb = c.chance(1, 8) ? c.size(1, 9) : c.size(1, 4);
  std::vector<int> sizes;
  for (int b = 0; b < nb; ++b) sizes.push_back(c.chance(1, 12) ? c.size(1, 14) : c.size(1, 5));
  Fn f = GenFn(c, sizes, false);
  Vec x(f.n);
  bool small = false;
  for (double& v : x) {
    v = (c.coin() ? 1 : -1) * c.logreal(0.3, 3);
    if (c.chance(1, 10)) { v = c.pick({0.0, 1e-9, 1e-3}); small = true; }
  }
  std::vector<std::unique_ptr<ceres::Manifold>> own;
  std::vector<const ceres::Manifold*> mani;
  std::vector<int> kinds;
  std::vector<double*> blocks;
  std::vector<Matrix> P;
  for (int b = 0, o = 0; b < nb; o += sizes[b++]) {
    int kind;
    own.push_back(GenManifold(c, sizes[b], x.data() + o, &kind));
    mani.push_back(own.back().get());
    kinds.push_back(kind);
    blocks.push_back(x.data() + o);
    Matrix p = Matrix::Identity(sizes[b], sizes[b]);
    if (mani[b]) {
      p.resize(sizes[b], mani[b]->TangentSize());
      REQUIRE("probe/plus", p.size() == 0 || mani[b]->PlusJacobian(blocks[b], p.data()), "");
    }
    P.push_back(p);
  }
  const double prec = small ? c.logreal(1e-3, 1e-1) : c.logreal(1e-6, 1e-1);
  f.fault = c.pick({kNone, kNone, kEntry, kEntry, kEntry, kEntry, kNullSpace, kNaN, kInf, kResidual, kFalseJ, kFalseNoJ, kFalse});
  f.fk = c.range(0, nb - 1);
  f.fi = c.range(0, f.rows - 1);
  f.fj = c.range(0, sizes[f.fk] - 1);
  f.delta = (c.coin() ? 1 : -1) * c.logreal(prec / 100, std::max(3.0, prec * 100));
  if (f.fault == kNullSpace) {
    f.dir.assign(sizes[f.fk], 0.0);
    if (kinds[f.fk] == 2 || kinds[f.fk] == 3) for (int j = 0; j < sizes[f.fk]; ++j) f.dir[j] = blocks[f.fk][j];
    else if (kinds[f.fk] == 1) { for (int j = 0; j < sizes[f.fk]; ++j) if (P[f.fk].row(j).isZero(0)) f.dir[j] = c.sym(2); }
    else f.fault = kNone;
  }
  const bool use_manifolds = c.chance(4, 5) || std::any_of(kinds.begin(), kinds.end(), [](int k) { return k == 2; });
  if (!use_manifolds) {
    for (int b = 0; b < nb; ++b) P[b] = Matrix::Identity(sizes[b], sizes[b]);
    if (f.fault == kNullSpace) f.fault = kEntry;
  }
  const Cost cost(&f);
  ceres::NumericDiffOptions nd;
  const ceres::GradientChecker checker(&cost, use_manifolds ? &mani : nullptr, nd);
  const Vec before = x;
  ceres::GradientChecker::ProbeResults res;
  if (c.coin()) { res.error_log = "stale"; res.maximum_relative_error = 7; res.return_value = false; res.jacobians.resize(9); }
  const bool ok = checker.Probe(blocks.data(), prec, &res);
  REQUIRE("probe/null_results", ok == checker.Probe(blocks.data(), prec, nullptr), "");
  REQUIRE("probe/parameters", x == before, "");
  c.label(pbt::Str("fault ", static_cast<int>(f.fault)));
  if (f.fault == kFalse || f.fault == kFalseJ || f.fault == kFalseNoJ) {
    c.nontrivial();
    REQUIRE("probe/failure", !ok && !res.return_value && !res.error_log.empty(), "ok ", ok, " return_value ", res.return_value);
    return;
  }
  REQUIRE("probe/return_value", res.return_value, "");
  Vec r;
  f.Residuals(x, &r);
  const Vec plain = r;
  if (f.fault == kResidual) r[f.fi] += f.delta;
  for (int i = 0; i < f.rows; ++i) REQUIRE("probe/residuals", res.residuals[i] == r[i], "");
  if (f.fault == kResidual) {
    double rel;
    const bool close = RefClose(r[f.fi], plain[f.fi], prec, &rel);
    if (std::fabs(rel - prec) > 1e-6 * prec) REQUIRE("probe/residual_mismatch", ok || !close, "rel ", rel, " precision ", prec);
    if (!close) {
      c.nontrivial();
      REQUIRE("probe/residual_mismatch", !ok && !res.error_log.empty(), "");
      return;
    }
  }
  // The reported matrices.
  const Matrix T = f.Jacobian(x), U = f.Claimed(x);
  double scale = 1;
  for (double v : plain) scale = std::max(scale, std::fabs(v));
  for (double v : x) scale = std::max(scale, 3 * std::fabs(v));
  const double noise = (small ? 1e-6 : 3e-10) * scale;
  REQUIRE("probe/shapes", static_cast<int>(res.jacobians.size()) == nb && static_cast<int>(res.local_jacobians.size()) == nb &&
          static_cast<int>(res.numeric_jacobians.size()) == nb && static_cast<int>(res.local_numeric_jacobians.size()) == nb, "");
  double worst = 0;
  std::set<Entry> ref;
  for (int k = 0; k < nb; ++k) {
    const int o = f.Offset(k), m = sizes[k];
    REQUIRE("probe/jacobian", SameBitsM(res.jacobians[k], Matrix(U.middleCols(o, m))), "block ", k);
    REQUIRE("probe/numeric_jacobian", (res.numeric_jacobians[k] - T.middleCols(o, m)).cwiseAbs().maxCoeff() <= noise * std::max(1.0, T.cwiseAbs().maxCoeff()),
            "block ", k, " error ", (res.numeric_jacobians[k] - T.middleCols(o, m)).cwiseAbs().maxCoeff(), " noise ", noise);
    REQUIRE("probe/local_shape", res.local_jacobians[k].cols() == P[k].cols() && res.local_numeric_jacobians[k].cols() == P[k].cols() &&
            res.local_jacobians[k].rows() == f.rows && res.local_numeric_jacobians[k].rows() == f.rows, "");
    const Matrix a = res.jacobians[k] * P[k], b = res.numeric_jacobians[k] * P[k];
    for (int i = 0; i < f.rows; ++i)
      for (int j = 0; j < P[k].cols(); ++j) {
        const double mag = res.jacobians[k].row(i).cwiseAbs().sum() + res.numeric_jacobians[k].row(i).cwiseAbs().sum();
        if (std::isfinite(mag)) REQUIRE_CLOSE("probe/local_jacobian", res.local_jacobians[k](i, j), a(i, j), 1e-13, mag, "block ", k);
        REQUIRE_CLOSE("probe/local_jacobian", res.local_numeric_jacobians[k](i, j), b(i, j), 1e-13, mag, "block ", k);
        double rel;
        if (!RefClose(res.local_jacobians[k](i, j), res.local_numeric_jacobians[k](i, j), prec, &rel)) ref.insert({k, i, j});
        if (rel > worst) worst = rel;
      }
  }
  const std::set<Entry> named = Named(res.error_log);
  REQUIRE("probe/verdict", ok == ref.empty(), "ok ", ok, " with ", ref.size(), " entries off by more than ", prec);
  REQUIRE("probe/named", named.size() == ref.size() && std::equal(named.begin(), named.end(), ref.begin(),
          [](const Entry& a, const Entry& b) { return a.k == b.k && a.i == b.i && a.j == b.j; }), res.error_log);
  REQUIRE("probe/log", ok == res.error_log.empty(), res.error_log);
  REQUIRE("probe/worst", f.fault == kNaN || f.fault == kInf || res.maximum_relative_error == worst, res.maximum_relative_error, " vs ", worst);
  // Right and wrong Jacobians, judged without the checker's own numbers.
  const Expect e = Classify(f, x, P, prec, noise);
  for (const Entry& b : e.bad) REQUIRE("probe/misses", !ok && named.count(b), "entry (", b.k, ",", b.i, ",", b.j, ") precision ", prec, " fault ", static_cast<int>(f.fault), " delta ", f.delta);
  for (const Entry& g : e.good) REQUIRE("probe/false_alarm", !named.count(g), "entry (", g.k, ",", g.i, ",", g.j, ") precision ", prec, " noise ", noise);
  c.label(e.bad.empty() ? "nothing clearly wrong" : pbt::Str(e.bad.size() > 1 ? ">1" : "1", " clearly wrong"));
  c.nontrivial(!e.bad.empty() || (e.good.size() > 1 && f.fault != kNone));
}

PBT_PROP(is_close, 200000, 2000000) {
  auto num = [&]() -> double {
    const int k = c.range(0, 9);
    if (k == 0) return c.pick({0.0, -0.0});
    if (k == 1) return c.pick({1e-320, -1e-320, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
    return (c.coin() ? 1 : -1) * c.logreal(1e-12, 1e12);
  };
  const double x = num(), p = c.logreal(1e-14, 2) * (c.chance(1, 4) ? -1 : 1);
  double y = num();
  if (c.coin()) y = x * (1 + p * c.pick({0.1, 0.5, 0.99, 1.01, 2.0, -0.5, -2.0}));
  double rel = -1, abs = -1, want;
  const bool w = RefClose(x, y, p, &want);
  const bool a = ci::IsClose(x, y, p, &rel, &abs);
  REQUIRE("is_close/value", a == w && (rel == want || std::isnan(want)) , "x ", x, " y ", y, " p ", p, " rel ", rel, " want ", want);
  REQUIRE("is_close/absolute", abs == std::fabs(x - y) || std::isnan(x - y), "");
  REQUIRE("is_close/outputs", ci::IsClose(x, y, p, nullptr, nullptr) == w && ci::IsClose(y, x, p, nullptr, &abs) == w, "x ", x, " y ", y);
  c.nontrivial(x != 0 && y != 0 && std::isfinite(x) && std::isfinite(y));
}

// The problem the checker builds is the user's problem.
PBT_PROP(wrapped, 20000, 400000) {
  pg::GenOptions g;
  g.bounds = c.coin();
  const pg::Spec s = pg::Gen(c, g);
  pg::Instance in(s);
  auto* impl = in.problem->mutable_impl();
  ci::GradientCheckingIterationCallback callback;
  auto copy = ci::CreateGradientCheckingProblemImpl(impl, 1e-6, 1e-3, &callback);
  std::vector<double*> a, b;
  impl->GetParameterBlocks(&a);
  copy->GetParameterBlocks(&b);
  REQUIRE("wrapped/blocks", a == b, "");
  for (double* p : a) {
    REQUIRE("wrapped/size", impl->ParameterBlockSize(p) == copy->ParameterBlockSize(p) && impl->ParameterBlockTangentSize(p) == copy->ParameterBlockTangentSize(p), "");
    REQUIRE("wrapped/manifold", impl->GetManifold(p) == copy->GetManifold(p), "");
    REQUIRE("wrapped/constant", impl->IsParameterBlockConstant(p) == copy->IsParameterBlockConstant(p), "");
    for (int i = 0; i < impl->ParameterBlockSize(p); ++i)
      REQUIRE("wrapped/bounds", impl->GetParameterLowerBound(p, i) == copy->GetParameterLowerBound(p, i) &&
              impl->GetParameterUpperBound(p, i) == copy->GetParameterUpperBound(p, i), "");
  }
  const auto& ra = impl->program().residual_blocks();
  const auto& rb = copy->program().residual_blocks();
  REQUIRE("wrapped/residuals", ra.size() == rb.size(), "");
  for (size_t i = 0; i < ra.size(); ++i) {
    REQUIRE("wrapped/loss", ra[i]->loss_function() == rb[i]->loss_function(), "");
    REQUIRE("wrapped/arity", ra[i]->NumParameterBlocks() == rb[i]->NumParameterBlocks() && ra[i]->NumResiduals() == rb[i]->NumResiduals(), "");
    for (int j = 0; j < ra[i]->NumParameterBlocks(); ++j)
      REQUIRE("wrapped/order", ra[i]->parameter_blocks()[j]->user_state() == rb[i]->parameter_blocks()[j]->user_state(), "");
  }
  ceres::Problem::EvaluateOptions eo;
  eo.apply_loss_function = c.coin();
  double ca = 0, cb = 0;
  Vec va, vb, ga, gb;
  ceres::CRSMatrix ja, jb;
  const bool oa = impl->Evaluate(eo, &ca, &va, &ga, &ja);
  const bool ob = copy->Evaluate(eo, &cb, &vb, &gb, &jb);
  REQUIRE("wrapped/evaluate", oa == ob, oa, " vs ", ob);
  if (!oa) return;
  REQUIRE("wrapped/values", ca == cb && va == vb && ga == gb && ja.values == jb.values && ja.cols == jb.cols && ja.rows == jb.rows, ca, " vs ", cb);
  c.nontrivial(ra.size() > 1);
}

// The wrapped cost function returns what the user's function returns, whichever Jacobians are asked for.
PBT_PROP(wrapper, 20000, 600000) {
  const int nb = c.size(1, 8);
  std::vector<int> sizes;
  for (int b = 0; b < nb; ++b) sizes.push_back(c.size(1, 4));
  Fn f = GenFn(c, sizes, false);
  Vec x(f.n);
  for (double& v : x) v = (c.coin() ? 1 : -1) * c.logreal(0.3, 3);
  std::vector<double*> blocks;
  for (int b = 0, o = 0; b < nb; o += sizes[b++]) blocks.push_back(x.data() + o);
  const double prec = c.logreal(1e-5, 1e-2);
  f.fault = c.pick({kNone, kNone, kEntry, kEntry, kFalseJ, kFalseNoJ, kFalse});
  f.fk = c.range(0, nb - 1);
  f.fi = c.range(0, f.rows - 1);
  f.fj = c.range(0, sizes[f.fk] - 1);
  f.delta = (c.coin() ? 1 : -1) * c.real(20, 40);
  const Cost cost(&f);
  std::vector<const ceres::Manifold*> mani(nb, nullptr);
  ci::GradientCheckingIterationCallback callback;
  auto w = ci::CreateGradientCheckingCostFunction(&cost, c.coin() ? &mani : nullptr, 1e-6, prec, "my block", &callback);
  REQUIRE("wrapper/shape", w->num_residuals() == f.rows && w->parameter_block_sizes() == cost.parameter_block_sizes(), "");
  for (int round = 0; round < 2; ++round) {
    const bool with_jac = round == 1 || c.coin();
    std::vector<Matrix> store, want;
    std::vector<double*> jac, wjac;
    for (int b = 0; b < nb; ++b) {
      store.push_back(Matrix::Constant(f.rows, sizes[b], 123.0));
      want.push_back(Matrix::Constant(f.rows, sizes[b], 123.0));
    }
    for (int b = 0; b < nb; ++b) {
      const bool ask = c.chance(3, 4);
      jac.push_back(ask ? store[b].data() : nullptr);
      wjac.push_back(ask ? want[b].data() : nullptr);
    }
    Vec r(f.rows, 0.0), wr(f.rows, 0.0);
    const bool ok = w->Evaluate(blocks.data(), r.data(), with_jac ? jac.data() : nullptr);
    const bool wok = cost.Evaluate(blocks.data(), wr.data(), with_jac ? wjac.data() : nullptr);
    // With Jacobians the wrapper needs the function with and without them.
    REQUIRE("wrapper/returns", ok == (wok && !(with_jac && f.fault == kFalseNoJ)), "ok ", ok, " fault ", static_cast<int>(f.fault));
    REQUIRE("wrapper/detected", callback.gradient_error_detected() == (with_jac && f.fault == kEntry), "fault ", static_cast<int>(f.fault), " delta ", f.delta, "\n", callback.error_log());
    if (callback.gradient_error_detected())
      REQUIRE("wrapper/log", callback.error_log().find("my block") != std::string::npos &&
              Named(callback.error_log()).count(Entry{f.fk, f.fi, f.fj}), callback.error_log());
    ceres::IterationSummary is;
    REQUIRE("wrapper/callback", callback(is) == (callback.gradient_error_detected() ? ceres::SOLVER_ABORT : ceres::SOLVER_CONTINUE), "");
    if (ok) {
      REQUIRE("wrapper/residuals", r == wr, "");
      for (int b = 0; b < nb; ++b) REQUIRE("wrapper/jacobian", store[b] == want[b], "block ", b);
      c.nontrivial(with_jac && nb > 1);
    }
    if (callback.gradient_error_detected()) break;
  }
}

struct SolveSpec {
  std::vector<int> sizes;
  std::vector<Vec> x0;
  std::vector<Fn> f;
  std::vector<std::vector<int>> blocks;
  std::vector<pg::LossSpec> loss;
  std::vector<bool> constant, bounded;
  std::vector<std::vector<int>> fixed;  // coordinates held by a subset manifold
  bool own = true;
};
struct Live {
  std::vector<Vec> x;
  std::vector<std::unique_ptr<Cost>> costs;
  std::unique_ptr<ceres::Problem> p;
  explicit Live(const SolveSpec& s, double** arena) {
    ceres::Problem::Options po;
    if (!s.own) po.cost_function_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    p.reset(new ceres::Problem(po));
    ptr.assign(arena, arena + s.sizes.size());
    for (size_t b = 0; b < s.sizes.size(); ++b) {
      std::copy(s.x0[b].begin(), s.x0[b].end(), ptr[b]);
      p->AddParameterBlock(ptr[b], s.sizes[b]);
      if (!s.fixed[b].empty()) p->SetManifold(ptr[b], new ceres::SubsetManifold(s.sizes[b], s.fixed[b]));
      if (s.constant[b]) p->SetParameterBlockConstant(ptr[b]);
      if (s.bounded[b])
        for (int j = 0; j < s.sizes[b]; ++j) {
          p->SetParameterLowerBound(ptr[b], j, s.x0[b][j] - 0.5);
          p->SetParameterUpperBound(ptr[b], j, s.x0[b][j] + 2.0);
        }
    }
    for (size_t i = 0; i < s.f.size(); ++i) {
      Cost* cost = new Cost(&s.f[i]);
      if (!s.own) costs.emplace_back(cost);
      std::vector<double*> q;
      for (int b : s.blocks[i]) q.push_back(ptr[b]);
      p->AddResidualBlock(cost, s.loss[i].Make(), q);
    }
  }
  std::vector<Vec> Values(const SolveSpec& s) const {
    std::vector<Vec> v;
    for (size_t b = 0; b < s.sizes.size(); ++b) v.emplace_back(ptr[b], ptr[b] + s.sizes[b]);
    return v;
  }
  std::vector<double*> ptr;
};

PBT_PROP(solve, 15000, 600000) {
  SolveSpec s;
  const int nb = c.size(1, 5);
  for (int b = 0; b < nb; ++b) {
    const int n = c.size(1, 4);
    s.sizes.push_back(n);
    Vec x;
    for (int j = 0; j < n; ++j) x.push_back((c.coin() ? 1 : -1) * c.logreal(0.3, 3));
    s.x0.push_back(x);
    s.constant.push_back(c.chance(1, 6));
    std::vector<int> fixed;
    if (n > 1 && c.chance(1, 3)) {
      for (int j = 0; j < n; ++j) if (c.coin()) fixed.push_back(j);
      if (static_cast<int>(fixed.size()) == n) fixed.pop_back();
    }
    s.fixed.push_back(fixed);
    s.bounded.push_back(fixed.empty() && c.chance(1, 6));
  }
  const bool line_search = c.chance(1, 5) && std::none_of(s.bounded.begin(), s.bounded.end(), [](bool b) { return b; });
  const int nr = c.size(1, 6);
  for (int i = 0; i < nr; ++i) {
    std::vector<int> bl = c.permutation(nb);
    bl.resize(c.range(1, std::min(nb, 3)));
    std::vector<int> sizes;
    for (int b : bl) sizes.push_back(s.sizes[b]);
    s.blocks.push_back(bl);
    s.f.push_back(GenFn(c, sizes, true));
    s.loss.push_back(c.chance(1, 3) ? pg::GenLoss(c) : pg::LossSpec());
  }
  s.own = c.coin();
  const double prec = c.logreal(1e-4, 1e-2);
  // Faults that are clearly faults at the starting point, or too small to be any everywhere.
  std::vector<int> bads;
  bool slight = false;
  const int faults = c.coin() ? 0 : c.range(1, 3);
  for (int k = 0; k < faults; ++k) {
    const int i = c.range(0, nr - 1);
    bool active = false;
    for (int b : s.blocks[i]) active |= !s.constant[b];
    Fn& f = s.f[i];
    if (f.fault != kNone) continue;
    f.fk = c.range(0, f.sizes.size() - 1);
    f.fi = c.range(0, f.rows - 1);
    f.fj = c.range(0, f.sizes[f.fk] - 1);
    const int b = s.blocks[i][f.fk];
    const bool held = std::count(s.fixed[b].begin(), s.fixed[b].end(), f.fj) > 0;
    f.delta = (c.coin() ? 1 : -1) * c.logreal(10 * prec, 1.0) * 4;
    if (c.chance(1, 4)) { f.fault = kEntry; f.delta = (c.coin() ? 1 : -1) * c.real(0.05, 0.2) * prec; slight = true; }
    else if (active && !held) { f.fault = kEntry; bads.push_back(i); }
    else if (active && held) { f.fault = kNullSpace; f.dir.assign(f.sizes[f.fk], 0.0); f.dir[f.fj] = 1; }
  }
  std::vector<std::unique_ptr<double[]>> store;
  std::vector<double*> arena;
  for (int n : s.sizes) { store.emplace_back(new double[n]); arena.push_back(store.back().get()); }

  ceres::Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.max_num_iterations = c.range(0, 8);
  o.num_threads = c.pick({1, 1, 1, 3});
  bool exact = o.num_threads == 1;
  if (line_search) {
    o.minimizer_type = ceres::LINE_SEARCH;
    o.line_search_direction_type = c.pick({ceres::LBFGS, ceres::BFGS, ceres::STEEPEST_DESCENT});
  } else {
    o.linear_solver_type = c.pick({ceres::DENSE_QR, ceres::DENSE_NORMAL_CHOLESKY, ceres::SPARSE_NORMAL_CHOLESKY});
    o.trust_region_strategy_type = c.pick({ceres::LEVENBERG_MARQUARDT, ceres::DOGLEG});
    o.use_nonmonotonic_steps = c.coin();
  }
  const bool update_state = c.chance(1, 4);
  o.update_state_every_iteration = update_state;
  ceres::Solver::Options checked = o;
  checked.check_gradients = true;
  checked.gradient_check_relative_precision = prec;

  c.note() << nb << " blocks, " << nr << " residual blocks, faults at";
  for (int i : bads) c.note() << " " << i;
  c.note() << " | " << (line_search ? "LS " : "TR ") << (line_search ? ceres::LineSearchDirectionTypeToString(o.line_search_direction_type) : ceres::LinearSolverTypeToString(o.linear_solver_type))
           << " " << ceres::TrustRegionStrategyTypeToString(o.trust_region_strategy_type) << (o.use_nonmonotonic_steps ? " nonmonotonic" : "") << " it=" << o.max_num_iterations << " thr=" << o.num_threads;
  ceres::Solver::Summary plain, with, again;
  double max_x = 0;
  std::vector<Vec> xp, xw, xa;
  {
    Live l(s, arena.data());
    g_max_x = 0.0;
    ceres::Solve(o, l.p.get(), &plain);
    xp = l.Values(s);
    max_x = g_max_x;
  }
  {
    Live l(s, arena.data());
    ceres::Solve(checked, l.p.get(), &with);
    xw = l.Values(s);
    // The user's problem stays usable: a solve without checking from the start.
    for (int b = 0; b < nb; ++b) std::copy(s.x0[b].begin(), s.x0[b].end(), l.ptr[b]);
    REQUIRE("solve/untouched", l.p->NumResidualBlocks() == nr && l.p->NumParameterBlocks() == nb, "");
    for (int b = 0; b < nb; ++b)
      REQUIRE("solve/untouched", l.p->IsParameterBlockConstant(l.ptr[b]) == s.constant[b] && l.p->HasManifold(l.ptr[b]) == !s.fixed[b].empty(), "block ", b);
    ceres::Solve(o, l.p.get(), &again);
    xa = l.Values(s);
  }
  auto same = [&](const ceres::Solver::Summary& a, const ceres::Solver::Summary& b, const std::vector<Vec>& x, const std::vector<Vec>& y) {
    if (exact) return a.termination_type == b.termination_type && pg::SameBits(x, y) && a.final_cost == b.final_cost &&
                      a.initial_cost == b.initial_cost && a.fixed_cost == b.fixed_cost && a.iterations.size() == b.iterations.size() && a.message == b.message;
    // With several threads the sums are rounded differently, which decisions of the line search (least of all with a
    // wrong gradient) amplify.
    return pbt::Close(a.initial_cost, b.initial_cost, 1e-12, 0) && (line_search || !bads.empty() || pbt::Close(a.final_cost, b.final_cost, 1e-3, 1e-6));
  };
  REQUIRE("solve/reusable", same(plain, again, xp, xa), plain.BriefReport(), " vs ", again.BriefReport(), "\n", pg::StrX(xp), "\n", pg::StrX(xa));
  const bool expect_failure = !bads.empty();
  bool seen = false;
  for (int bad : bads) {
    Vec x;
    for (int b : s.blocks[bad]) x.insert(x.end(), s.x0[b].begin(), s.x0[b].end());
    std::vector<Matrix> P;
    for (int b : s.blocks[bad]) {
      Matrix p = Matrix::Identity(s.sizes[b], s.sizes[b]);
      if (!s.fixed[b].empty()) {
        ceres::SubsetManifold m(s.sizes[b], s.fixed[b]);
        p.resize(s.sizes[b], m.TangentSize());
        m.PlusJacobian(x.data(), p.data());
      }
      P.push_back(p);
    }
    const Expect e = Classify(s.f[bad], x, P, prec, 1e-7);
    if (!e.bad.empty() && plain.initial_cost >= 0) {
      seen = true;
      c.label(bads.size() > 1 ? "wrong Jacobians" : "wrong Jacobian");
      c.nontrivial();
      REQUIRE("solve/undetected", with.termination_type == ceres::FAILURE, with.BriefReport());
      REQUIRE("solve/usable", !with.IsSolutionUsable() && pg::SameBits(xw, s.x0), pg::StrX(xw));
      REQUIRE("solve/message", with.message.find("Gradient Error detected") != std::string::npos &&
              with.message.find(pbt::Str("Residual block id ", bad, ";")) != std::string::npos, with.message);
      const std::set<Entry> named = Named(with.message);
      for (const Entry& b : e.bad) REQUIRE("solve/names", named.count(b), with.message);
      char ptr[64];
      std::snprintf(ptr, sizeof ptr, "%p", static_cast<void*>(arena[s.blocks[bad][0]]));
      REQUIRE("solve/parameters", with.message.find(ptr) != std::string::npos, ptr, " not in ", with.message);
      if (bads.size() == 1)
        for (const Entry& g : e.good) REQUIRE("solve/names_good", !named.count(g) || with.num_residual_evaluations > 1, with.message);
    }
  }
  if (expect_failure) { c.label(seen ? "wrong" : "not clearly wrong"); return; }
  if (slight) c.label("slightly wrong Jacobian");
  c.label(s.own ? "right Jacobian, owned" : "right Jacobian");
  if (max_x > 40 && with.termination_type == ceres::FAILURE) {
    c.label("numeric derivatives too coarse");
    return;
  }
  REQUIRE("solve/same", same(plain, with, xp, xw), plain.BriefReport(), " vs ", with.BriefReport(), " precision ", prec, "\n", with.message, "\n", pg::StrX(xp), "\n", pg::StrX(xw));
  c.nontrivial(plain.iterations.size() > 1);
}

PBT_MAIN("C30", "probe: a clearly wrong entry or a detected failure, or several clearly right entries next to a harmless fault; "
         "solve: a wrong Jacobian, or more than one iteration with right ones")
