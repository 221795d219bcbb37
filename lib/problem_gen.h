// Random least squares problems, as data: a Spec can be instantiated as a
// ceres::Problem any number of times, and evaluated independently of ceres.
#ifndef VERIF_PROBLEM_GEN_H_
#define VERIF_PROBLEM_GEN_H_
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef PBT_ASAN
#include <sanitizer/asan_interface.h>
#endif
#include <atomic>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#include "Eigen/Dense"
#include "ceres/ceres.h"
#include "expr.h"
#include "pbt.h"

namespace pg {
typedef long double LD;
typedef std::vector<double> Vec;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> Mat;
typedef Eigen::VectorXd VecX;

// ---- loss functions --------------------------------------------------------
enum LossKind { kNoLoss, kTrivial, kHuber, kSoftL1, kCauchy, kArctan, kTolerant, kTukey, kScaled, kComposed, kNumLoss };

struct LossSpec {
  int kind = kNoLoss;
  double a = 1, b = 1;
  std::vector<LossSpec> sub;

  bool operator==(const LossSpec& o) const { return kind == o.kind && a == o.a && b == o.b && sub == o.sub; }
  ceres::LossFunction* Make() const {
    switch (kind) {
      case kNoLoss: return nullptr;
      case kTrivial: return new ceres::TrivialLoss();
      case kHuber: return new ceres::HuberLoss(a);
      case kSoftL1: return new ceres::SoftLOneLoss(a);
      case kCauchy: return new ceres::CauchyLoss(a);
      case kArctan: return new ceres::ArctanLoss(a);
      case kTolerant: return new ceres::TolerantLoss(a, b);
      case kTukey: return new ceres::TukeyLoss(a);
      case kScaled: return new ceres::ScaledLoss(sub[0].Make(), a, ceres::TAKE_OWNERSHIP);
      case kComposed:
        return new ceres::ComposedLoss(sub[0].Make(), ceres::TAKE_OWNERSHIP, sub[1].Make(), ceres::TAKE_OWNERSHIP);
    }
    return nullptr;
  }
  // rho, rho', rho'' from the documentation's formulas.
  void Rho(LD s, LD r[3]) const {
    const LD a2 = (LD)a * a;
    switch (kind) {
      case kNoLoss: case kTrivial: r[0] = s; r[1] = 1; r[2] = 0; return;
      case kHuber:
        if (s <= a2) { r[0] = s; r[1] = 1; r[2] = 0; }
        else { const LD q = sqrtl(s); r[0] = 2 * a * q - a2; r[1] = a / q; r[2] = -r[1] / (2 * s); }
        return;
      case kSoftL1: { const LD q = sqrtl(1 + s / a2); r[0] = 2 * a2 * (q - 1); r[1] = 1 / q; r[2] = -1 / (2 * a2 * q * q * q); return; }
      case kCauchy: { const LD t = 1 + s / a2; r[0] = a2 * logl(t); r[1] = 1 / t; r[2] = -1 / (a2 * t * t); return; }
      case kArctan: { const LD t = 1 + s * s / a2; r[0] = a * atan2l(s, a); r[1] = 1 / t; r[2] = -2 * s / (a2 * t * t); return; }
      case kTolerant: {
        const LD x = (s - a) / b;
        const LD e0 = expl(-(LD)a / b);
        r[0] = (LD)b * (x > 0 ? x + log1pl(expl(-x)) : log1pl(expl(x))) - (LD)b * log1pl(e0);
        r[1] = 1 / (1 + expl(-x));
        r[2] = 1 / ((LD)b * (2 + expl(x) + expl(-x)));
        return;
      }
      case kTukey:
        if (s <= a2) { const LD v = 1 - s / a2; r[0] = a2 / 3 * (1 - v * v * v); r[1] = v * v; r[2] = -2 / a2 * v; }
        else { r[0] = a2 / 3; r[1] = r[2] = 0; }
        return;
      case kScaled: sub[0].Rho(s, r); for (int i = 0; i < 3; ++i) r[i] *= a; return;
      case kComposed: {
        LD f[3], g[3];
        sub[1].Rho(s, g);
        sub[0].Rho(g[0], f);
        r[0] = f[0]; r[1] = f[1] * g[1]; r[2] = f[2] * g[1] * g[1] + f[1] * g[2];
        return;
      }
    }
  }
  std::string Str() const {
    static const char* n[] = {"none", "trivial", "huber", "softl1", "cauchy", "arctan", "tolerant", "tukey", "scaled", "composed"};
    std::string s = n[kind];
    if (kind > kTrivial && kind != kComposed) s += pbt::Str("(", a, kind == kTolerant ? pbt::Str(",", b) : "", ")");
    for (auto& x : sub) s += "<" + x.Str() + ">";
    return s;
  }
};

inline LossSpec GenLoss(pbt::Case& c, int depth = 0) {
  LossSpec l;
  l.kind = depth == 0 ? c.pick({kNoLoss, kHuber, kCauchy, kSoftL1, kTrivial, kArctan, kTolerant, kTukey, kScaled, kComposed})
                      : c.pick({kHuber, kCauchy, kSoftL1, kTrivial, kArctan, kTukey});
  l.a = c.pick({1.0, 0.5, 2.0, 5.0});
  l.b = c.pick({1.0, 0.5, 0.3});
  if (l.kind == kScaled) { l.sub.push_back(c.coin() ? GenLoss(c, 1) : LossSpec()); l.a = c.pick({2.0, 0.3, 1.0}); }
  if (l.kind == kComposed) { l.sub.push_back(GenLoss(c, 1)); l.sub.push_back(GenLoss(c, 1)); }
  return l;
}

// ---- manifolds -------------------------------------------------------------
enum ManiKind { kNone, kSubset, kQuat, kEigenQuat, kSphere, kSphereDyn, kLine, kEuclid, kProduct, kLinear, kNumMani };

// User-defined manifold: Plus(x, d) = x + S d with S of full column rank.
class LinearManifold : public ceres::Manifold {
 public:
  explicit LinearManifold(const Mat& s) : s_(s), pinv_((s.transpose() * s).inverse() * s.transpose()) {}
  int AmbientSize() const override { return s_.rows(); }
  int TangentSize() const override { return s_.cols(); }
  bool Plus(const double* x, const double* d, double* y) const override {
    Eigen::Map<VecX>(y, s_.rows()) = Eigen::Map<const VecX>(x, s_.rows()) + s_ * Eigen::Map<const VecX>(d, s_.cols());
    return true;
  }
  bool PlusJacobian(const double*, double* j) const override { Eigen::Map<Mat>(j, s_.rows(), s_.cols()) = s_; return true; }
  bool Minus(const double* y, const double* x, double* d) const override {
    Eigen::Map<VecX>(d, s_.cols()) = pinv_ * (Eigen::Map<const VecX>(y, s_.rows()) - Eigen::Map<const VecX>(x, s_.rows()));
    return true;
  }
  bool MinusJacobian(const double*, double* j) const override { Eigen::Map<Mat>(j, s_.cols(), s_.rows()) = pinv_; return true; }
 private:
  Mat s_, pinv_;
};

struct ManiSpec {
  int kind = kNone;
  int ambient = 0, tangent = 0;
  std::vector<int> fixed;  // kSubset
  Mat s;                   // kLinear

  bool operator==(const ManiSpec& o) const {
    return kind == o.kind && ambient == o.ambient && tangent == o.tangent && fixed == o.fixed && s.rows() == o.s.rows() && s.cols() == o.s.cols() && s == o.s;
  }
  ceres::Manifold* Make() const {
    using namespace ceres;
    switch (kind) {
      case kNone: return nullptr;
      case kSubset: return new SubsetManifold(ambient, fixed);
      case kQuat: return new QuaternionManifold();
      case kEigenQuat: return new EigenQuaternionManifold();
      case kSphere: return new SphereManifold<3>();
      case kSphereDyn: return new SphereManifold<DYNAMIC>(ambient);
      case kLine: return new LineManifold<3>();
      case kEuclid: return new EuclideanManifold<DYNAMIC>(ambient);
      case kProduct:
        return new ProductManifold<QuaternionManifold, EuclideanManifold<3>>(QuaternionManifold(), EuclideanManifold<3>());
      case kLinear: return new LinearManifold(s);
    }
    return nullptr;
  }
  bool linear() const { return kind == kNone || kind == kSubset || kind == kEuclid || kind == kLinear; }
  bool box_ok() const { return kind == kNone || kind == kSubset || kind == kEuclid; }
  std::string Str() const {
    static const char* n[] = {"", "subset", "quat", "eigenquat", "sphere3", "sphereN", "line3", "euclid", "quat*R3", "linear"};
    return kind == kNone ? "" : pbt::Str(":", n[kind], "/", tangent);
  }
};

// ---- blocks and residuals --------------------------------------------------
struct BlockSpec {
  int size = 1;
  Vec x0;
  ManiSpec mani;
  bool constant = false;
  Vec lo, up;  // empty, or one per coordinate (infinite when absent)
  bool has_bounds() const { return !lo.empty(); }
  int tangent() const { return mani.kind == kNone ? size : mani.tangent; }
};

struct ResSpec {
  int rows = 1;
  std::vector<int> blocks;
  int inputs = 0;
  Mat a;       // rows x inputs (may be empty)
  Vec target;  // rows
  bool use_expr = false;
  double expr_weight = 1;
  expr::Program prog;
  LossSpec loss;

  void Value(const double* x, double* r) const {
    for (int i = 0; i < rows; ++i) {
      double s = -target[i];
      if (a.size()) for (int j = 0; j < inputs; ++j) s += a(i, j) * x[j];
      r[i] = s;
    }
    if (use_expr) {
      double v[16];
      prog.Eval<double>(x, v);
      for (int i = 0; i < rows; ++i) r[i] += expr_weight * v[i];
    }
  }
  void Jacobian(const double* x, Mat* j) const {
    if (a.size()) *j = a; else j->setZero(rows, inputs);
    if (use_expr) {
      std::vector<LD> v; std::vector<std::vector<LD>> jj;
      prog.Reference(x, &v, &jj);
      for (int i = 0; i < rows; ++i) for (int k = 0; k < inputs; ++k) (*j)(i, k) += expr_weight * (double)jj[i][k];
    }
  }
};

struct Spec {
  std::vector<BlockSpec> blocks;
  std::vector<ResSpec> res;
  bool share = false;    // equal losses and manifolds are the same object
  int address_seed = 0;  // relative order of the parameter arrays in memory

  std::vector<Vec> Start() const { std::vector<Vec> v; for (auto& b : blocks) v.push_back(b.x0); return v; }
  bool linear() const {
    for (auto& r : res) if (r.use_expr || (r.loss.kind != kNoLoss && r.loss.kind != kTrivial)) return false;
    for (auto& b : blocks) if (!b.mani.linear()) return false;
    return true;
  }
  bool has_bounds() const { for (auto& b : blocks) if (b.has_bounds()) return true; return false; }
  int num_params() const { int n = 0; for (auto& b : blocks) n += b.size; return n; }
  Vec Gather(const ResSpec& r, const std::vector<Vec>& x) const {
    Vec v; for (int b : r.blocks) v.insert(v.end(), x[b].begin(), x[b].end()); return v;
  }
  LD ResCost(const ResSpec& r, const std::vector<Vec>& x) const {
    Vec in = Gather(r, x), out(r.rows);
    r.Value(in.data(), out.data());
    LD s = 0; for (double d : out) s += (LD)d * d;
    LD rho[3]; r.loss.Rho(s, rho);
    return rho[0] / 2;
  }
  LD Cost(const std::vector<Vec>& x) const { LD t = 0; for (auto& r : res) t += ResCost(r, x); return t; }
  // Sum of magnitudes of the terms, as the scale of rounding errors.
  LD CostScale(const std::vector<Vec>& x) const { LD t = 0; for (auto& r : res) t += fabsl(ResCost(r, x)); return t; }
  // Gradient of the cost with respect to the ambient coordinates of block b (if any residual uses it).
  std::vector<Vec> AmbientGradient(const std::vector<Vec>& x, double* scale = nullptr) const {
    std::vector<std::vector<LD>> g;
    for (auto& b : blocks) g.push_back(std::vector<LD>(b.size, 0));
    double sc = 0;
    for (auto& r : res) {
      Vec in = Gather(r, x), out(r.rows);
      r.Value(in.data(), out.data());
      LD s = 0; for (double d : out) s += (LD)d * d;
      LD rho[3]; r.loss.Rho(s, rho);
      Mat j; r.Jacobian(in.data(), &j);
      int col = 0;
      for (int b : r.blocks) {
        for (int k = 0; k < blocks[b].size; ++k, ++col)
          for (int i = 0; i < r.rows; ++i) {
            const LD t = rho[1] * j(i, col) * out[i];
            g[b][k] += t;
            sc = std::max(sc, (double)fabsl(t));
          }
      }
    }
    std::vector<Vec> v;
    for (auto& q : g) { Vec d; for (LD t : q) d.push_back((double)t); v.push_back(d); }
    if (scale) *scale = sc;
    return v;
  }
  // Gradient in the tangent space (empty for constant blocks).
  std::vector<Vec> TangentGradient(const std::vector<Vec>& x, double* scale = nullptr) const {
    std::vector<Vec> g = AmbientGradient(x, scale);
    for (size_t b = 0; b < blocks.size(); ++b) {
      if (blocks[b].constant) { g[b].clear(); continue; }
      if (blocks[b].mani.kind == kNone) continue;
      std::unique_ptr<ceres::Manifold> m(blocks[b].mani.Make());
      Vec pj(blocks[b].size * blocks[b].tangent() + 1);
      m->PlusJacobian(x[b].data(), pj.data());
      Vec t(blocks[b].tangent(), 0);
      for (int k = 0; k < blocks[b].tangent(); ++k)
        for (int i = 0; i < blocks[b].size; ++i) t[k] += pj[i * blocks[b].tangent() + k] * g[b][i];
      g[b] = t;
    }
    return g;
  }
  // |x - project(plus(x, -g))| per ambient coordinate: the solver's gradient measure.
  void ProjectedGradientNorms(const std::vector<Vec>& x, double* max_norm, double* norm) const {
    std::vector<Vec> g = TangentGradient(x);
    *max_norm = 0; double s = 0;
    for (size_t b = 0; b < blocks.size(); ++b) {
      if (blocks[b].constant || g[b].empty()) continue;
      Vec d(g[b]); for (double& t : d) t = -t;
      Vec y(blocks[b].size);
      if (blocks[b].mani.kind == kNone) for (int i = 0; i < blocks[b].size; ++i) y[i] = x[b][i] + d[i];
      else { std::unique_ptr<ceres::Manifold> m(blocks[b].mani.Make()); m->Plus(x[b].data(), d.data(), y.data()); }
      for (int i = 0; i < blocks[b].size; ++i) {
        if (blocks[b].has_bounds()) y[i] = std::min(std::max(y[i], blocks[b].lo[i]), blocks[b].up[i]);
        const double t = x[b][i] - y[i];
        *max_norm = std::max(*max_norm, std::fabs(t));
        s += t * t;
      }
    }
    *norm = std::sqrt(s);
  }
  std::string Str() const {
    std::string s = "blocks[";
    for (auto& b : blocks) s += pbt::Str(" ", b.size, b.mani.Str(), b.constant ? "c" : "", b.has_bounds() ? "b" : "");
    s += " ] res[";
    for (auto& r : res) {
      s += pbt::Str(" ", r.rows, "(");
      for (size_t i = 0; i < r.blocks.size(); ++i) s += pbt::Str(i ? "," : "", r.blocks[i]);
      s += pbt::Str(")", r.use_expr ? "nl" : "lin", r.loss.kind ? "/" + r.loss.Str() : "");
    }
    return s + " ]";
  }
};

// ---- recording / fault injecting cost function ------------------------------
enum Fault { kOk, kReturnFalse, kNanResidual, kInfResidual, kNanJacobian, kInfJacobian };

struct Recorder {
  std::mutex mu;
  std::atomic<int64_t> evals{0}, jac_evals{0};
  // Called (under the mutex) on every evaluation when set; returns a Fault.
  std::function<int(int res, const double* const* params, bool jacobians)> hook;
};

class CeresCost : public ceres::CostFunction {
 public:
  CeresCost(const ResSpec* r, const std::vector<int>& sizes, int index, Recorder* rec) : r_(r), index_(index), rec_(rec) {
    set_num_residuals(r->rows);
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* p, double* res, double** jac) const override {
    int fault = kOk;
    if (rec_) {
      ++rec_->evals;
      if (jac) ++rec_->jac_evals;
      if (rec_->hook) { std::lock_guard<std::mutex> l(rec_->mu); fault = rec_->hook(index_, p, jac != nullptr); }
    }
    if (fault == kReturnFalse) return false;
    const auto& sizes = parameter_block_sizes();
    double in[64];
    int n = 0;
    for (size_t b = 0; b < sizes.size(); ++b) for (int k = 0; k < sizes[b]; ++k) in[n++] = p[b][k];
    r_->Value(in, res);
    if (fault == kNanResidual) res[r_->rows - 1] = std::numeric_limits<double>::quiet_NaN();
    if (fault == kInfResidual) res[0] = std::numeric_limits<double>::infinity();
    if (jac) {
      bool any = false;
      for (size_t b = 0; b < sizes.size(); ++b) any = any || jac[b];
      if (any) {
        Mat j; r_->Jacobian(in, &j);
        if (fault == kNanJacobian) j(r_->rows - 1, 0) = std::numeric_limits<double>::quiet_NaN();
        if (fault == kInfJacobian) j(0, n - 1) = -std::numeric_limits<double>::infinity();
        int col = 0;
        for (size_t b = 0; b < sizes.size(); ++b) {
          if (jac[b]) Eigen::Map<Mat>(jac[b], r_->rows, sizes[b]) = j.block(0, col, r_->rows, sizes[b]);
          col += sizes[b];
        }
      }
    }
    return true;
  }
 private:
  const ResSpec* r_;
  int index_;
  Recorder* rec_;
};

struct BuildOptions {
  std::vector<int> block_order;  // explicit AddParameterBlock order (empty: 0..n-1)
  std::vector<int> res_order;
  bool implicit_blocks = false;  // let AddResidualBlock add blocks
  bool fast_removal = false;
  ceres::EvaluationCallback* evaluation_callback = nullptr;
  ceres::Context* context = nullptr;
};

// Parameter arrays laid out in one arena, in a generated order of addresses
// (several parts of the library sort by pointer), with gaps between them that
// the address sanitizer reports.
class Arena {
 public:
  Arena() = default;
  Arena(const Arena&) = delete;
  ~Arena() { Free(); }
  static constexpr int kGap = 4;
  void Layout(const std::vector<int>& sizes, int seed) {
    Free();
    std::vector<int> order(sizes.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    if (seed) {
      uint64_t h = 0x9E3779B97F4A7C15ull * seed;
      for (size_t i = order.size(); i > 1; --i) {
        h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        std::swap(order[i - 1], order[h % i]);
      }
    }
    total = kGap;
    for (int n : sizes) total += n + kGap;
    data = static_cast<double*>(::operator new(total * sizeof(double)));
    at.assign(sizes.size(), nullptr);
#ifdef PBT_ASAN
    __asan_poison_memory_region(data, total * sizeof(double));
#endif
    double* p = data + kGap;
    for (int i : order) {
      at[i] = p;
#ifdef PBT_ASAN
      __asan_unpoison_memory_region(p, sizes[i] * sizeof(double));
#endif
      p += sizes[i] + kGap;
    }
  }
  void Free() {
#ifdef PBT_ASAN
    if (data) __asan_unpoison_memory_region(data, total * sizeof(double));
#endif
    ::operator delete(data);
    data = nullptr;
  }
  std::vector<double*> at;
 private:
  double* data = nullptr;
  size_t total = 0;
};
struct BlockPtr {
  double* p;
  double* get() const { return p; }
  double& operator[](int i) const { return p[i]; }
};

// One realisation of a Spec.  Parameter arrays are exact-size buffers.
class Instance {
 public:
  explicit Instance(const Spec& s, const BuildOptions& bo = BuildOptions()) : spec(s) { Build(bo); }
  const Spec spec;
  Arena arena;
  std::vector<BlockPtr> x;
  Recorder rec;
  std::unique_ptr<ceres::Problem> problem;
  std::vector<ceres::ResidualBlockId> ids;

  void Build(const BuildOptions& bo) {
    std::vector<int> sizes;
    for (auto& b : spec.blocks) sizes.push_back(b.size);
    arena.Layout(sizes, spec.address_seed);
    for (size_t i = 0; i < sizes.size(); ++i) {
      x.push_back({arena.at[i]});
      std::copy(spec.blocks[i].x0.begin(), spec.blocks[i].x0.end(), x[i].get());
    }
    ceres::Problem::Options po;
    po.enable_fast_removal = bo.fast_removal;
    po.evaluation_callback = bo.evaluation_callback;
    po.context = bo.context;
    problem.reset(new ceres::Problem(po));
    const int nb = spec.blocks.size(), nr = spec.res.size();
    building_ = true;
    ids.assign(nr, nullptr);
    if (!bo.implicit_blocks)
      for (int i = 0; i < nb; ++i) AddBlock(bo.block_order.empty() ? i : bo.block_order[i]);
    for (int i = 0; i < nr; ++i) AddRes(bo.res_order.empty() ? i : bo.res_order[i]);
    for (int i = 0; i < nb; ++i) {
      if (bo.implicit_blocks) AddBlock(i);
      Configure(i);
    }
    building_ = false;
    manifolds_.clear();
    losses_.clear();
  }
  void AddBlock(int i) { problem->AddParameterBlock(x[i].get(), spec.blocks[i].size); }
  void Configure(int i) {
    const BlockSpec& b = spec.blocks[i];
    if (b.mani.kind != kNone) problem->SetManifold(x[i].get(), Shared(b.mani, &manifolds_));
    if (b.constant) problem->SetParameterBlockConstant(x[i].get());
    if (b.has_bounds())
      for (int k = 0; k < b.size; ++k) {
        if (b.lo[k] > -std::numeric_limits<double>::max()) problem->SetParameterLowerBound(x[i].get(), k, b.lo[k]);
        if (b.up[k] < std::numeric_limits<double>::max()) problem->SetParameterUpperBound(x[i].get(), k, b.up[k]);
      }
  }
  void AddRes(int i) {
    const ResSpec& r = spec.res[i];
    std::vector<int> sizes;
    std::vector<double*> ptrs;
    for (int b : r.blocks) { sizes.push_back(spec.blocks[b].size); ptrs.push_back(x[b].get()); }
    ids[i] = problem->AddResidualBlock(new CeresCost(&spec.res[i], sizes, i, &rec), Shared(r.loss, &losses_), ptrs);
  }
  std::vector<Vec> Values() const {
    std::vector<Vec> v;
    for (size_t i = 0; i < x.size(); ++i) v.emplace_back(x[i].get(), x[i].get() + spec.blocks[i].size);
    return v;
  }
  void Set(const std::vector<Vec>& v) { for (size_t i = 0; i < x.size(); ++i) std::copy(v[i].begin(), v[i].end(), x[i].get()); }
  int IndexOf(const double* p) const { for (size_t i = 0; i < x.size(); ++i) if (x[i].get() == p) return i; return -1; }

 private:
  // While the problem is built, objects of equal specifications may be shared.
  std::vector<std::pair<ManiSpec, ceres::Manifold*>> manifolds_;
  std::vector<std::pair<LossSpec, ceres::LossFunction*>> losses_;
  template <class S, class T>
  T* Shared(const S& s, std::vector<std::pair<S, T*>>* made) {
    if (spec.share && building_) for (auto& m : *made) if (m.first == s) return m.second;
    T* t = s.Make();
    if (t && building_) made->emplace_back(s, t);
    return t;
  }
  bool building_ = false;
};

inline bool SameBits(const std::vector<Vec>& a, const std::vector<Vec>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i].size() != b[i].size() || (a[i].size() && std::memcmp(a[i].data(), b[i].data(), a[i].size() * sizeof(double)))) return false;
  return true;
}
inline double MaxDiff(const std::vector<Vec>& a, const std::vector<Vec>& b) {
  double d = 0;
  for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < a[i].size(); ++k) {
    const double t = std::fabs(a[i][k] - b[i][k]);
    if (!(t <= d)) d = t;
  }
  return d;
}
inline double MaxAbs(const std::vector<Vec>& a) {
  double d = 0;
  for (auto& v : a) for (double t : v) d = std::max(d, std::fabs(t));
  return d;
}
inline std::string StrX(const std::vector<Vec>& a) {
  std::string s = "{";
  for (auto& v : a) { s += "("; for (double t : v) s += pbt::Str(t, " "); s += ")"; }
  return s + "}";
}

// ---- generators -------------------------------------------------------------
struct GenOptions {
  int max_blocks = 6, max_res = 10, max_size = 4;
  bool nonlinear = true;
  bool manifolds = true;     // any
  bool curved = true;        // non-linear manifolds
  bool losses = true;
  bool constants = true;
  bool bounds = false;
  bool full_rank = false;    // linear part makes the problem well conditioned
  bool priors = true;        // sometimes adds one residual per block keeping it anchored
  bool unused_blocks = true; // blocks without residuals
  int bipartite = -1;        // -1: random choice; 0 general; 1 point/camera structure
  double scale = 2.0;
};

inline void GenMani(pbt::Case& c, BlockSpec* b, bool curved, int force = -1) {
  ManiSpec& m = b->mani;
  std::vector<int> kinds = {kNone, kNone, kSubset, kEuclid, kLinear};
  if (curved) {
    if (b->size == 4) { kinds.push_back(kQuat); kinds.push_back(kEigenQuat); kinds.push_back(kSphereDyn); kinds.push_back(kQuat); }
    if (b->size == 3) { kinds.push_back(kSphere); kinds.push_back(kSphereDyn); }
    if (b->size == 6) kinds.push_back(kLine);
    if (b->size == 7) { kinds.push_back(kProduct); kinds.push_back(kProduct); }
  }
  m.kind = force >= 0 ? force : c.pick(kinds);
  m.ambient = m.tangent = b->size;
  switch (m.kind) {
    case kSubset: {
      for (int k = 0; k < b->size; ++k) if (c.chance(1, 3)) m.fixed.push_back(k);
      m.tangent = b->size - (int)m.fixed.size();
      break;
    }
    case kQuat: case kEigenQuat: case kSphereDyn: case kSphere: {
      m.tangent = b->size - 1;
      double n = 0; for (double t : b->x0) n += t * t;
      if (n < 1e-2) { b->x0.assign(b->size, 0.0); b->x0[c.range(0, b->size - 1)] = 1; n = 1; }
      for (double& t : b->x0) t /= std::sqrt(n);
      break;
    }
    case kLine: {
      m.tangent = 4;
      double n = 0; for (int k = 3; k < 6; ++k) n += b->x0[k] * b->x0[k];
      if (n < 1e-2) { b->x0[3] = b->x0[4] = 0; b->x0[5] = 1; n = 1; }
      for (int k = 3; k < 6; ++k) b->x0[k] /= std::sqrt(n);
      break;
    }
    case kProduct: {
      m.tangent = 6;
      double n = 0; for (int k = 0; k < 4; ++k) n += b->x0[k] * b->x0[k];
      if (n < 1e-2) { b->x0[0] = 1; b->x0[1] = b->x0[2] = b->x0[3] = 0; n = 1; }
      for (int k = 0; k < 4; ++k) b->x0[k] /= std::sqrt(n);
      break;
    }
    case kLinear: {
      m.tangent = c.range(1, b->size);
      m.s.setZero(b->size, m.tangent);
      for (int j = 0; j < m.tangent; ++j) m.s(j, j) = c.pick({1.0, 2.0, -1.0});
      for (int i = m.tangent; i < b->size; ++i) for (int j = 0; j < m.tangent; ++j) m.s(i, j) = c.pick({0.0, 0.5, -1.0});
      break;
    }
  }
}

inline ResSpec GenRes(pbt::Case& c, const Spec& s, const std::vector<int>& blocks, int rows, const GenOptions& o) {
  ResSpec r;
  r.blocks = blocks;
  r.rows = rows;
  for (int b : blocks) r.inputs += s.blocks[b].size;
  const int kind = o.nonlinear ? c.pick({2, 1, 0, 2}) : 0;  // 0 linear, 1 expr, 2 mixed
  if (kind != 1) {
    r.a.resize(rows, r.inputs);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < r.inputs; ++j) r.a(i, j) = c.chance(1, 6) ? 0.0 : c.sym(1.5);
  }
  if (kind != 0) {
    r.use_expr = true;
    r.prog = expr::Gen(c, r.inputs, rows, c.range(2, 6));
    r.expr_weight = kind == 2 ? c.pick({0.3, 1.0}) : 1.0;
  }
  for (int i = 0; i < rows; ++i) r.target.push_back(c.sym(o.scale));
  if (o.losses && c.chance(1, 3)) r.loss = GenLoss(c);
  return r;
}

inline ResSpec PriorRes(pbt::Case& c, const Spec& s, int b, double weight) {
  ResSpec r;
  r.blocks = {b};
  r.rows = r.inputs = s.blocks[b].size;
  r.a = Mat::Identity(r.rows, r.rows) * weight;
  for (int i = 0; i < r.rows; ++i) r.target.push_back(weight * c.sym(2.0));
  return r;
}

inline Spec Gen(pbt::Case& c, const GenOptions& o = GenOptions()) {
  Spec s;
  const int structure = o.bipartite >= 0 ? o.bipartite : (c.chance(1, 3) ? 1 : 0);
  // Now and then a larger problem, so that limits of a few blocks do not go unnoticed.
  const int large = o.max_blocks >= 6 && c.chance(1, 12) ? 2 : 1;
  const int nb = c.size(1, o.max_blocks * large);
  int e_blocks = 0, e_size = 0, f_size = 0, r_size = 0;
  if (structure == 1) {
    static const int t[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 2, 4}, {2, 2, 1}, {2, 3, 3}, {2, 3, 4}, {2, 3, 6}, {2, 3, 9}, {2, 3, 1}, {2, 4, 3},
                               {2, 4, 4}, {2, 4, 6}, {2, 4, 8}, {2, 4, 9}, {2, 4, 1}, {2, 1, 1}, {3, 3, 3}, {4, 4, 2}, {4, 4, 3}, {4, 4, 4}, {4, 4, 1}, {1, 1, 1}};
    const int k = c.range(0, 21);
    r_size = t[k][0]; e_size = t[k][1]; f_size = t[k][2];
    e_blocks = std::max(1, nb / 2);
  }
  for (int i = 0; i < nb; ++i) {
    BlockSpec b;
    if (structure == 1) b.size = i < e_blocks ? e_size : f_size;
    else b.size = o.curved && o.manifolds && c.chance(1, 5) ? c.pick({4, 3, 7, 6}) : c.range(1, o.max_size);
    if (b.size > o.max_size && structure == 0 && !(o.curved && o.manifolds)) b.size = o.max_size;
    for (int k = 0; k < b.size; ++k) b.x0.push_back(c.sym(o.scale));
    if (o.manifolds && c.chance(structure == 1 ? 1 : 2, 5)) {
      int like = -1;  // the kind of an earlier block of this size
      for (auto& a : s.blocks) if (a.size == b.size && !a.mani.linear()) like = a.mani.kind;
      GenMani(c, &b, o.curved, like >= 0 && c.coin() ? like : -1);
    }
    if (o.constants && c.chance(1, 7)) b.constant = true;
    if (o.bounds && b.mani.box_ok() && c.chance(3, 5)) {
      const double inf = std::numeric_limits<double>::infinity();
      b.lo.assign(b.size, -inf);
      b.up.assign(b.size, inf);
      for (int k = 0; k < b.size; ++k) {
        if (c.coin()) b.lo[k] = b.x0[k] - c.pick({0.0, 0.3, 1.0, 3.0});
        if (c.coin()) b.up[k] = b.x0[k] + c.pick({0.0, 0.3, 1.0, 3.0});
        if (b.lo[k] >= b.up[k]) b.up[k] = b.lo[k] + 0.5;
      }
      bool any = false;
      for (int k = 0; k < b.size; ++k) any |= b.lo[k] > -inf || b.up[k] < inf;
      if (!any) b.lo[0] = b.x0[0] - 0.5;
    }
    s.blocks.push_back(b);
  }
  const int nr = c.size(1, o.max_res * large);
  std::vector<bool> used(nb, false);
  for (int i = 0; i < nr; ++i) {
    std::vector<int> bl;
    int rows;
    if (structure == 1) {
      rows = r_size;
      const int e = i < e_blocks ? i : c.range(0, e_blocks - 1);
      if (!c.chance(1, 10)) bl.push_back(e);
      if (nb > e_blocks) {
        bl.push_back(e_blocks + c.range(0, nb - e_blocks - 1));
        if (c.chance(1, 8)) { int f = e_blocks + c.range(0, nb - e_blocks - 1); if (f != bl.back()) bl.push_back(f); }
      }
      if (bl.empty()) bl.push_back(e);
      if (c.chance(1, 6)) std::reverse(bl.begin(), bl.end());
    } else {
      std::vector<int> p = c.permutation(nb);
      const int k = c.range(1, std::min(nb, o.max_blocks >= 4 && c.chance(1, 10) ? 7 : 3));
      bl.assign(p.begin(), p.begin() + k);
      rows = c.chance(1, 16) ? c.range(5, 9) : c.range(1, 4);
    }
    for (int b : bl) used[b] = true;
    s.res.push_back(GenRes(c, s, bl, rows, o));
  }
  for (int b = 0; b < nb; ++b) {
    const bool need = !used[b] && !(o.unused_blocks && c.chance(1, 4));
    if (o.full_rank || need || (o.priors && c.chance(1, 4))) {
      s.res.push_back(PriorRes(c, s, b, o.full_rank ? c.pick({1.0, 0.5, 2.0}) : c.pick({0.1, 1.0, 0.5})));
    }
  }
  s.address_seed = c.range(0, 40);
  s.share = c.coin();
  return s;
}

// ---- solver configurations ---------------------------------------------------
struct Config {
  ceres::Solver::Options o;          // without the pointer-valued members
  std::vector<int> group;            // linear solver ordering: group of each block, or empty
  std::vector<int> inner_group;      // inner iteration ordering (-1: absent), or empty
  std::vector<int> subset;           // residuals for the SUBSET preconditioner
  std::string str;

  ceres::Solver::Options Make(const Instance& in) const {
    ceres::Solver::Options r = o;
    if (!group.empty()) {
      r.linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
      for (size_t i = 0; i < group.size(); ++i) r.linear_solver_ordering->AddElementToGroup(in.x[i].get(), group[i]);
    }
    if (!inner_group.empty()) {
      r.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
      for (size_t i = 0; i < inner_group.size(); ++i)
        if (inner_group[i] >= 0) r.inner_iteration_ordering->AddElementToGroup(in.x[i].get(), inner_group[i]);
    }
    for (int i : subset) r.residual_blocks_for_subset_preconditioner.insert(in.ids[i]);
    return r;
  }
};

// Groups such that group 0 (and more generally each group) is an independent set.
inline std::vector<int> GenIndependentGroups(pbt::Case& c, const Spec& s, bool all_groups_independent) {
  const int nb = s.blocks.size();
  auto conflict = [&](int a, int b) {
    for (auto& r : s.res) {
      bool ha = false, hb = false;
      for (int k : r.blocks) { ha |= k == a; hb |= k == b; }
      if (ha && hb) return true;
    }
    return false;
  };
  std::vector<int> g(nb, -1);
  bool first = true;
  for (int b : c.permutation(nb)) {
    if (all_groups_independent) {
      for (int k = 0;; ++k) {
        bool ok = true;
        for (int q = 0; q < nb; ++q) if (g[q] == k && conflict(q, b)) ok = false;
        if (ok) { g[b] = k; break; }
      }
    } else {
      bool ok = true;
      for (int q = 0; q < nb; ++q) if (g[q] == 0 && conflict(q, b)) ok = false;
      g[b] = first || (ok && c.chance(3, 4)) ? 0 : c.range(1, 2);
      first = false;
    }
  }
  return g;
}

struct ConfigOptions {
  bool trust_region = true, line_search = true;
  bool exact_only = false;        // linear solvers computing exact steps
  bool inner = true;
  bool nonmonotonic = true;
  bool threads = true;
  bool tight = false;             // tight tolerances, many iterations
  bool mixed = true;
  bool fixed_algorithm = false;   // keeps strategy choices but no early stopping variations
};

inline const char* Name(ceres::LinearSolverType t) { return ceres::LinearSolverTypeToString(t); }

inline void GenLinearSolver(pbt::Case& c, const Spec& s, const ConfigOptions& co, Config* r) {
  using namespace ceres;
  Solver::Options& o = r->o;
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.dense_linear_algebra_library_type = EIGEN;
  o.linear_solver_ordering_type = AMD;
  std::vector<LinearSolverType> types = {DENSE_QR, DENSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR};
  const bool dogleg = o.minimizer_type == TRUST_REGION && o.trust_region_strategy_type == DOGLEG;
  if (!co.exact_only && !dogleg) { types.push_back(ITERATIVE_SCHUR); types.push_back(CGNR); types.push_back(ITERATIVE_SCHUR); }
  o.linear_solver_type = c.pick(types);
  r->str += pbt::Str(" ", Name(o.linear_solver_type));
  const LinearSolverType t = o.linear_solver_type;
  if (t == SPARSE_NORMAL_CHOLESKY && c.chance(1, 3)) { o.dynamic_sparsity = true; r->str += "+dyn"; }
  if (co.mixed && !co.exact_only && (t == DENSE_NORMAL_CHOLESKY || t == SPARSE_NORMAL_CHOLESKY || t == DENSE_SCHUR || t == SPARSE_SCHUR) &&
      !o.dynamic_sparsity && c.chance(1, 6)) {
    o.use_mixed_precision_solves = true;
    o.max_num_refinement_iterations = c.range(1, 4);
    r->str += "+mixed";
  }
  if (t == ITERATIVE_SCHUR) {
    o.preconditioner_type = c.pick({JACOBI, IDENTITY, SCHUR_JACOBI, CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL, SCHUR_POWER_SERIES_EXPANSION});
    if (o.preconditioner_type == SCHUR_JACOBI && c.coin()) { o.use_explicit_schur_complement = true; r->str += "+explicit"; }
    else if (c.chance(1, 4)) { o.use_spse_initialization = true; r->str += "+spseinit"; }
    o.max_num_spse_iterations = c.range(1, 6);
    o.spse_tolerance = c.pick({0.1, 0.01, 0.0});
    if (o.preconditioner_type == CLUSTER_JACOBI || o.preconditioner_type == CLUSTER_TRIDIAGONAL)
      o.visibility_clustering_type = c.pick({CANONICAL_VIEWS, SINGLE_LINKAGE});
    r->str += pbt::Str("/", PreconditionerTypeToString(o.preconditioner_type));
  }
  if (t == CGNR) {
    o.preconditioner_type = c.pick({JACOBI, IDENTITY, SUBSET});
    if (o.preconditioner_type == SUBSET) {
      for (size_t i = 0; i < s.res.size(); ++i) if (c.chance(2, 3)) r->subset.push_back(i);
      if (r->subset.empty()) r->subset.push_back(0);
    }
    r->str += pbt::Str("/", PreconditionerTypeToString(o.preconditioner_type));
  }
  if (c.chance(1, 3)) {
    r->group = GenIndependentGroups(c, s, false);
    if (IsSchurType(t) == false && c.coin()) for (int& g : r->group) g = c.range(0, 3);
    r->str += " ordered";
  }
}

inline Config GenConfig(pbt::Case& c, const Spec& s, const ConfigOptions& co = ConfigOptions()) {
  using namespace ceres;
  Config r;
  Solver::Options& o = r.o;
  o.logging_type = SILENT;
  o.minimizer_progress_to_stdout = false;
  const bool ls = co.line_search && (!co.trust_region || (c.chance(1, 4) && !s.has_bounds()));
  o.minimizer_type = ls ? LINE_SEARCH : TRUST_REGION;
  o.max_num_iterations = co.tight ? 200 : c.pick({50, 10, 3, 1, 0, 100});
  if (co.tight) {
    o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0;
    o.gradient_tolerance = 1e-12;
  } else {
    o.function_tolerance = c.pick({1e-6, 1e-3, 1e-12, 0.0});
    o.gradient_tolerance = c.pick({1e-10, 1e-4, 0.0, 1e-14});
    o.parameter_tolerance = c.pick({1e-8, 1e-3, 0.0});
  }
  o.num_threads = co.threads ? c.pick({1, 2, 1, 4}) : 1;
  o.jacobi_scaling = !c.chance(1, 4);
  o.update_state_every_iteration = c.chance(1, 4);
  o.use_explicit_schur_complement = false;
  if (ls) {
    o.line_search_direction_type = c.pick({LBFGS, STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, BFGS});
    o.line_search_type = c.pick({WOLFE, ARMIJO});
    if (o.line_search_direction_type == LBFGS || o.line_search_direction_type == BFGS) o.line_search_type = WOLFE;
    o.nonlinear_conjugate_gradient_type = c.pick({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL});
    o.max_lbfgs_rank = c.pick({20, 1, 3});
    o.use_approximate_eigenvalue_bfgs_scaling = c.coin();
    o.line_search_interpolation_type = c.pick({CUBIC, QUADRATIC, BISECTION});
    r.str = pbt::Str("LS ", LineSearchDirectionTypeToString(o.line_search_direction_type), " ",
                     LineSearchTypeToString(o.line_search_type), " ",
                     LineSearchInterpolationTypeToString(o.line_search_interpolation_type));
  } else {
    o.trust_region_strategy_type = c.pick({LEVENBERG_MARQUARDT, LEVENBERG_MARQUARDT, DOGLEG});
    o.dogleg_type = c.pick({TRADITIONAL_DOGLEG, SUBSPACE_DOGLEG});
    r.str = pbt::Str("TR ", o.trust_region_strategy_type == DOGLEG ? (o.dogleg_type == SUBSPACE_DOGLEG ? "SUBSPACE" : "DOGLEG") : "LM");
    GenLinearSolver(c, s, co, &r);
    o.initial_trust_region_radius = c.pick({1e4, 1.0, 1e-1, 1e8});
    if (!co.tight && c.chance(1, 8)) o.min_trust_region_radius = c.pick({1e-3, 1e-8});
    if (c.chance(1, 8)) o.max_trust_region_radius = o.initial_trust_region_radius * c.pick({1.0, 10.0});
    if (o.min_trust_region_radius > o.initial_trust_region_radius) o.min_trust_region_radius = o.initial_trust_region_radius;
    if (!co.tight) o.min_relative_decrease = c.pick({1e-3, 0.0, 0.2});
    if (co.nonmonotonic && c.chance(1, 5)) {
      o.use_nonmonotonic_steps = true;
      o.max_consecutive_nonmonotonic_steps = c.range(1, 6);
      r.str += "+nonmono";
    }
    if (co.inner && c.chance(1, 5)) {
      o.use_inner_iterations = true;
      o.inner_iteration_tolerance = c.pick({1e-3, 0.0, 0.1});
      if (c.coin()) r.inner_group = GenIndependentGroups(c, s, true);
      r.str += "+inner";
    }
  }
  r.str += pbt::Str(" it=", o.max_num_iterations, " thr=", o.num_threads, " ftol=", o.function_tolerance, " gtol=", o.gradient_tolerance,
                    " ptol=", o.parameter_tolerance, o.update_state_every_iteration ? " upd" : "");
  return r;
}

}  // namespace pg
#endif
