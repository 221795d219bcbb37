// C13: manifolds obey the plus/minus laws and their Jacobians.
// pbt-build: flavor=asan
#include <cmath>
#include <cstring>
#include <memory>

#include "ceres/ceres.h"
#include "ceres/rotation.h"
#include "pbt.h"

using namespace ceres;
using pbt::Case;
typedef long double LD;
typedef std::vector<double> Vec;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> Mat;

// ---- automatically differentiated manifolds --------------------------------------
struct QuatFunctor {  // Hamilton product, w first, delta is half the rotation vector
  template <typename T> bool Plus(const T* x, const T* d, T* y) const {
    const T n2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
    T q[4];
    if (n2 > T(0)) { using std::sqrt; using std::sin; using std::cos; const T n = sqrt(n2), k = sin(n) / n; q[0] = cos(n); for (int i = 0; i < 3; ++i) q[i + 1] = k * d[i]; }
    else { q[0] = T(1); for (int i = 0; i < 3; ++i) q[i + 1] = d[i]; }
    QuaternionProduct(q, x, y);
    return true;
  }
  template <typename T> bool Minus(const T* y, const T* x, T* d) const {
    const T c[4] = {x[0], -x[1], -x[2], -x[3]};
    T q[4];
    QuaternionProduct(y, c, q);
    const T n2 = q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
    if (n2 > T(0)) { using std::sqrt; using std::atan2; const T n = sqrt(n2), k = atan2(n, q[0]) / n; for (int i = 0; i < 3; ++i) d[i] = k * q[i + 1]; }
    else for (int i = 0; i < 3; ++i) d[i] = q[i + 1];
    return true;
  }
};
struct PolarFunctor {  // positive scale, angle: y = x * exp(d) in the plane, no fixed points but 0
  template <typename T> bool Plus(const T* x, const T* d, T* y) const {
    using std::cos; using std::sin; using std::exp;
    const T r = exp(d[0]), c = cos(d[1]), s = sin(d[1]);
    y[0] = r * (c * x[0] - s * x[1]);
    y[1] = r * (s * x[0] + c * x[1]);
    return true;
  }
  template <typename T> bool Minus(const T* y, const T* x, T* d) const {
    using std::atan2; using std::log;
    d[0] = T(0.5) * log((y[0] * y[0] + y[1] * y[1]) / (x[0] * x[0] + x[1] * x[1]));
    d[1] = atan2(x[0] * y[1] - x[1] * y[0], x[0] * y[0] + x[1] * y[1]);
    return true;
  }
};
struct FailFunctor {
  template <typename T> bool Plus(const T* x, const T* d, T* y) const { y[0] = x[0] + d[0]; y[1] = x[1]; return false; }
  template <typename T> bool Minus(const T* y, const T* x, T* d) const { d[0] = y[0] - x[0]; return false; }
};
struct FailManifold : Manifold {
  int mask; explicit FailManifold(int m) : mask(m) {}
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 1; }
  bool Plus(const double* x, const double* d, double* y) const override { y[0] = x[0] + d[0]; y[1] = x[1]; return !(mask & 1); }
  bool PlusJacobian(const double*, double* j) const override { j[0] = 1; j[1] = 0; return !(mask & 2); }
  bool Minus(const double* y, const double* x, double* d) const override { d[0] = y[0] - x[0]; return !(mask & 4); }
  bool MinusJacobian(const double*, double* j) const override { j[0] = 1; j[1] = 0; return !(mask & 8); }
};

// ---- description of a manifold --------------------------------------------------------
// parts: the coordinates that move on a sphere (quaternions too), their kind and offset.
enum Kind { kEuclid, kSubset, kQuat, kEigen, kSphere, kLine, kAutoQuat, kPolar };
struct Part {
  Kind kind;
  int size;                 // ambient
  std::vector<int> fixed;   // subset
  int tangent() const {
    switch (kind) {
      case kEuclid: return size;
      case kSubset: return size - (int)fixed.size();
      case kQuat: case kEigen: case kAutoQuat: return 3;
      case kSphere: return size - 1;
      case kLine: return size - 2;
      case kPolar: return 2;
    }
    return 0;
  }
};
template <int N> static std::unique_ptr<Manifold> SphereN(bool dyn) { if (dyn) return std::make_unique<SphereManifold<DYNAMIC>>(N); return std::make_unique<SphereManifold<N>>(); }
template <int N> static std::unique_ptr<Manifold> LineN(bool dyn) { if (dyn) return std::make_unique<LineManifold<DYNAMIC>>(N); return std::make_unique<LineManifold<N>>(); }
template <int N> static std::unique_ptr<Manifold> EuclidN(bool dyn) { if (dyn) return std::make_unique<EuclideanManifold<DYNAMIC>>(N); return std::make_unique<EuclideanManifold<N>>(); }
static std::unique_ptr<Manifold> Make(const Part& p, bool dyn) {
  switch (p.kind) {
    case kEuclid: switch (p.size) { case 0: return EuclidN<0>(dyn); case 1: return EuclidN<1>(dyn); case 2: return EuclidN<2>(dyn); case 3: return EuclidN<3>(dyn); case 5: return EuclidN<5>(dyn); default: return std::make_unique<EuclideanManifold<DYNAMIC>>(p.size); }
    case kSubset: return std::make_unique<SubsetManifold>(p.size, p.fixed);
    case kQuat: return std::make_unique<QuaternionManifold>();
    case kEigen: return std::make_unique<EigenQuaternionManifold>();
    case kSphere: switch (p.size) { case 2: return SphereN<2>(dyn); case 3: return SphereN<3>(dyn); case 4: return SphereN<4>(dyn); case 7: return SphereN<7>(dyn); default: return std::make_unique<SphereManifold<DYNAMIC>>(p.size); }
    case kLine: switch (p.size) { case 4: return LineN<2>(dyn); case 6: return LineN<3>(dyn); case 8: return LineN<4>(dyn); default: return std::make_unique<LineManifold<DYNAMIC>>(p.size / 2); }
    case kAutoQuat: return std::make_unique<AutoDiffManifold<QuatFunctor, 4, 3>>();
    case kPolar: return std::make_unique<AutoDiffManifold<PolarFunctor, 2, 2>>();
  }
  return nullptr;
}
static Part GenPart(Case& c) {
  Part p;
  p.kind = c.pick({kEuclid, kSubset, kQuat, kEigen, kSphere, kSphere, kLine, kLine, kAutoQuat, kPolar});
  switch (p.kind) {
    case kEuclid: p.size = c.pick({1, 2, 3, 5, 0, 9}); break;
    case kSubset: { p.size = c.range(1, 6); const int n = c.range(0, 6); for (int i = 0; i < p.size; ++i) if (c.range(0, 6) < n) p.fixed.push_back(i); auto o = c.permutation(p.fixed.size()); std::vector<int> f; for (int k : o) f.push_back(p.fixed[k]); p.fixed = f; break; }
    case kQuat: case kEigen: case kAutoQuat: p.size = 4; break;
    case kSphere: p.size = c.pick({3, 2, 4, 7, 5, 9}); break;
    case kLine: p.size = 2 * c.pick({3, 2, 4, 5}); break;
    case kPolar: p.size = 2; break;
  }
  return p;
}
// A direction of length r: generic, or on / close to a coordinate axis (the last is the pole).
static Vec Direction(Case& c, int n, double r) {
  Vec x(n);
  const int how = c.range(0, 4);
  if (how <= 1) for (double& t : x) t = c.sym(2);
  else {
    x[how == 2 ? c.range(0, n - 1) : n - 1] = c.coin() ? 1 : -1;
    if (how == 4) { const double e = c.logreal(1e-18, 1e-1); for (double& t : x) t += e * c.sym(1); }
  }
  LD s = 0;
  for (double t : x) s += (LD)t * t;
  if (s < 1e-12) { x.assign(n, 0); x[0] = 1; s = 1; }
  for (double& t : x) t = (double)(t / sqrtl(s) * r);
  return x;
}
static void Append(Vec* a, const Vec& b) { a->insert(a->end(), b.begin(), b.end()); }
static Vec GenPoint(Case& c, const Part& p) {
  Vec x;
  switch (p.kind) {
    case kEuclid: case kSubset: for (int i = 0; i < p.size; ++i) x.push_back(c.sym(10)); break;
    case kQuat: case kEigen: case kAutoQuat: x = Direction(c, 4, 1); break;
    case kSphere: x = Direction(c, p.size, c.coin() ? 1.0 : c.logreal(1e-9, 1e6)); break;
    case kLine: for (int i = 0; i < p.size / 2; ++i) x.push_back(c.sym(10)); Append(&x, Direction(c, p.size / 2, c.coin() ? 1.0 : c.logreal(1e-6, 1e3))); break;
    case kPolar: x = Direction(c, 2, c.logreal(0.1, 10)); break;
  }
  return x;
}
// A step whose curved part has a length below pi.
static Vec GenStep(Case& c, const Part& p, bool near_cut = true) {
  Vec d;
  switch (p.kind) {
    case kEuclid: case kSubset: for (int i = 0; i < p.tangent(); ++i) d.push_back(c.sym(5)); break;
    case kPolar: d = {c.sym(1), c.sym(3.0)}; break;
    case kLine: for (int i = 0; i < p.size / 2 - 1; ++i) d.push_back(c.sym(5)); [[fallthrough]];
    default: {
      const int n = p.kind == kLine ? p.size / 2 - 1 : p.tangent();
      const int how = c.range(0, near_cut ? 5 : 4);
      double r = how == 0 ? 0 : how <= 3 ? c.real(0, 3.0) : how == 4 ? c.logreal(1e-20, 1e-3) : 3.14159 - c.logreal(1e-5, 1e-1);
      Append(&d, n == 1 ? Vec{c.coin() ? r : -r} : Direction(c, n, r));
    }
  }
  return d;
}
// Largest length of the curved coordinates, for tolerances.
static double Scale(const Vec& x) { double s = 0; for (double t : x) s = std::max(s, std::fabs(t)); return s; }
static std::string S(const Vec& v) { std::string s = "("; for (double t : v) s += pbt::Str(t, " "); return s + ")"; }

struct Buf {  // exactly sized: a write outside is caught by the sanitizer
  std::unique_ptr<double[]> p; int n;
  explicit Buf(int n) : p(new double[n]), n(n) { std::fill_n(p.get(), n, std::nan("")); }
  explicit Buf(const Vec& v) : Buf(v.size()) { std::copy(v.begin(), v.end(), p.get()); }
  double* get() { return p.get(); }
  Vec vec() const { return Vec(p.get(), p.get() + n); }
};
static Vec Plus(Case& c, const Manifold& m, const Vec& x, const Vec& d) {
  Buf bx(x), bd(d), o(m.AmbientSize());
  REQUIRE("plus_failed", m.Plus(bx.get(), bd.get(), o.get()), "");
  REQUIRE("input_modified", bx.vec() == x && bd.vec() == d, "");
  return o.vec();
}
static Vec Minus(Case& c, const Manifold& m, const Vec& y, const Vec& x) {
  Buf by(y), bx(x), o(m.TangentSize());
  REQUIRE("minus_failed", m.Minus(by.get(), bx.get(), o.get()), "");
  return o.vec();
}
static Mat PlusJ(Case& c, const Manifold& m, const Vec& x) {
  Buf bx(x), o(m.AmbientSize() * m.TangentSize());
  REQUIRE("plus_jacobian_failed", m.PlusJacobian(bx.get(), o.get()), "");
  Mat r(m.AmbientSize(), m.TangentSize());
  std::copy_n(o.get(), r.size(), r.data());
  return r;
}
static Mat MinusJ(Case& c, const Manifold& m, const Vec& x) {
  Buf bx(x), o(m.AmbientSize() * m.TangentSize());
  REQUIRE("minus_jacobian_failed", m.MinusJacobian(bx.get(), o.get()), "");
  Mat r(m.TangentSize(), m.AmbientSize());
  std::copy_n(o.get(), r.size(), r.data());
  return r;
}

// The plus operation, from its definition, given the basis of the tangent space for spheres.
static std::vector<LD> RefPlus(const Part& p, const Vec& x, const Vec& d, const Mat& basis) {
  std::vector<LD> y(x.begin(), x.end());
  auto sphere = [&](int xo, int dof, int n) {  // geodesic from x in the direction basis * d
    LD th = 0;
    for (int i = 0; i < n - 1; ++i) th += (LD)d[dof + i] * d[dof + i];
    th = sqrtl(th);
    const LD k = th > 0 ? sinl(th) / th : 1;
    for (int i = 0; i < n; ++i) {
      LD t = 0;
      for (int j = 0; j < n - 1; ++j) t += (LD)basis(xo + i, dof + j) * d[dof + j];
      y[xo + i] = cosl(th) * x[xo + i] + k * t;
    }
  };
  switch (p.kind) {
    case kEuclid: for (size_t i = 0; i < y.size(); ++i) y[i] += d[i]; break;
    case kSubset: { int j = 0; for (int i = 0; i < p.size; ++i) if (std::find(p.fixed.begin(), p.fixed.end(), i) == p.fixed.end()) y[i] += d[j++]; break; }
    case kQuat: case kEigen: case kAutoQuat: {
      LD th = sqrtl((LD)d[0] * d[0] + (LD)d[1] * d[1] + (LD)d[2] * d[2]), k = th > 0 ? sinl(th) / th : 1;
      const bool e = p.kind == kEigen;
      LD a[4] = {cosl(th), k * d[0], k * d[1], k * d[2]}, b[4];
      for (int i = 0; i < 4; ++i) b[i] = e ? x[(i + 3) % 4] : x[i];
      LD q[4] = {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
                 a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
      for (int i = 0; i < 4; ++i) (e ? y[(i + 3) % 4] : y[i]) = q[i];
      break;
    }
    case kSphere: sphere(0, 0, p.size); break;
    case kLine: {
      const int n = p.size / 2;
      sphere(n, n - 1, n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n - 1; ++j) y[i] += (LD)basis(i, j) * d[j];
      break;
    }
    case kPolar: { const LD r = expl(d[0]), cs = cosl(d[1]), s = sinl(d[1]); y[0] = r * (cs * x[0] - s * x[1]); y[1] = r * (s * x[0] + cs * x[1]); break; }
  }
  return y;
}

static void CheckPart(Case& c, const Part& p, bool dyn) {
  std::unique_ptr<Manifold> m = Make(p, dyn);
  const int A = p.size, T = p.tangent();
  REQUIRE("sizes", m->AmbientSize() == A && m->TangentSize() == T, m->AmbientSize(), " ", m->TangentSize());
  const Vec x = GenPoint(c, p), d = GenStep(c, p), zero(T, 0.0);
  static const char* names[] = {"euclidean", "subset", "quaternion", "eigen quaternion", "sphere", "line", "autodiff quaternion", "autodiff polar"};
  c.label(names[p.kind]);
  c.note() << names[p.kind] << A << (dyn ? " dynamic" : "") << " x=" << S(x) << " d=" << S(d);
  // Spheres (and directions of lines) have a radius; coordinates further on are relative to it.
  const int so = p.kind == kLine ? A / 2 : 0;                 // start of the sphere part
  const bool curved = p.kind != kEuclid && p.kind != kSubset && p.kind != kPolar;
  LD r2 = 0;
  for (int i = so; i < A; ++i) r2 += (LD)x[i] * x[i];
  const double R = curved || p.kind == kPolar ? (double)sqrtl(r2) : std::max(1.0, Scale(x));
  // The Householder reflection treats directions within 1.5e-8 of the pole as the pole.
  LD s2 = 0;
  for (int i = so; i < A - 1; ++i) s2 += (LD)x[i] * x[i];
  const bool pole = (p.kind == kSphere || p.kind == kLine) && s2 > 0 && s2 <= 3e-16L * r2;
  const double eps = pole ? 4e-8 : 1e-13;
  // Scale of each coordinate.
  auto sc = [&](int i) { return p.kind == kLine && i < so ? 20.0 : p.kind == kPolar ? 3 * R : R + (curved ? 0 : Scale(d)); };

  const Vec x0 = Plus(c, *m, x, zero);
  for (int i = 0; i < A; ++i) REQUIRE("plus_zero", std::fabs(x0[i] - x[i]) <= eps * sc(i), i, " ", S(x0));
  const Mat J = PlusJ(c, *m, x), K = MinusJ(c, *m, x);
  const Vec y = Plus(c, *m, x, d);
  const std::vector<LD> ref = RefPlus(p, x, d, J);
  for (int i = 0; i < A; ++i) REQUIRE("plus_value", std::fabs((double)(y[i] - ref[i])) <= eps * sc(i) * 10, i, " ", S(y), " expected ", (double)ref[i]);
  if (curved) {
    LD n2 = 0;
    for (int i = so; i < A; ++i) n2 += (LD)y[i] * y[i];
    REQUIRE("left_the_manifold", std::fabs((double)(sqrtl(n2) / R - 1)) <= 1e-13, (double)sqrtl(n2), " ", R);
  }
  if (p.kind == kSubset) for (int k : p.fixed) REQUIRE("fixed_coordinate", y[k] == x[k] && x0[k] == x[k], k);

  // Minus inverts plus.
  double curved_len = 0;
  for (int j = p.kind == kLine ? so - 1 : 0; j < T; ++j) curved_len += d[j] * d[j];
  curved_len = std::sqrt(curved_len);
  const double amp = curved ? 1.0 / std::max(1e-5, M_PI - curved_len) : 1.0;  // directions are ill-determined close to the cut locus
  const Vec b = Minus(c, *m, y, x);
  for (int j = 0; j < T; ++j) {
    const double s = p.kind == kLine && j < so - 1 ? 40.0 : curved || p.kind == kPolar ? 4 * amp : std::max(R, Scale(d));
    // (moving by d, in the rounded representation of y)
    REQUIRE("minus_plus", std::fabs(b[j] - d[j]) <= eps * 10 * s, j, " ", S(b));
  }
  for (double t : Minus(c, *m, x, x)) REQUIRE("minus_self", std::fabs(t) <= eps * 20, t);
  // Plus inverts minus, for another point of the same manifold.
  Vec z = GenPoint(c, p);
  if (p.kind == kSubset) for (int k : p.fixed) z[k] = x[k];
  if (curved) {
    LD z2 = 0;
    for (int i = so; i < A; ++i) z2 += (LD)z[i] * z[i];
    for (int i = so; i < A; ++i) z[i] = (double)(z[i] * (R / sqrtl(z2)));
  }
  if (p.kind == kLine) { for (int i = 0; i < so; ++i) z[i] = y[i]; }  // (a translation orthogonal to the direction)
  const Vec dz = Minus(c, *m, z, x), back = Plus(c, *m, x, dz);
  bool antipode = false;   // the two quaternions of a rotation / opposite points: only the point matters
  LD dot = 0;
  for (int i = so; i < A; ++i) dot += (LD)x[i] * z[i];
  if (curved && dot < -R * R * (1 - 1e-9)) antipode = true;
  if (!antipode)
    for (int i = 0; i < A; ++i) REQUIRE("plus_minus", std::fabs(back[i] - z[i]) <= 1e2 * eps * sc(i) + 1e-13 * std::fabs(z[i]), i, " ", S(back), " expected ", S(z), " d=", S(dz));
  if (curved) {
    LD l = 0;
    for (int j = p.kind == kLine ? so - 1 : 0; j < T; ++j) l += (LD)dz[j] * dz[j];
    REQUIRE("not_shortest", sqrtl(l) <= M_PIl + 1e-9, (double)sqrtl(l));
  }

  // Jacobians: against differences of plus and minus, and against each other.
  const double h = 1e-4;
  for (int j = 0; j < T; ++j) {
    Vec dp(T, 0.0), dm(T, 0.0);
    dp[j] = h; dm[j] = -h;
    const Vec yp = Plus(c, *m, x, dp), ym = Plus(c, *m, x, dm);
    for (int i = 0; i < A; ++i)
      REQUIRE("plus_jacobian", std::fabs((yp[i] - ym[i]) / (2 * h) - J(i, j)) <= 3e-8 * sc(i), i, ",", j, " ", J(i, j), " differences ", (yp[i] - ym[i]) / (2 * h));
  }
  for (int i = 0; i < A; ++i) {
    Vec xp = x, xm = x;
    const double hi = p.kind == kLine && i < so ? h : h * R;
    xp[i] += hi; xm[i] -= hi;
    const double step = xp[i] - xm[i];
    const Vec dp = Minus(c, *m, xp, x), dm = Minus(c, *m, xm, x);
    for (int j = 0; j < T; ++j) {
      const double num = (dp[j] - dm[j]) / step, tol = 1e-7 * (p.kind == kLine ? std::max(1.0, 1 / R) : curved || p.kind == kPolar ? 10 / R : 1.0);
      REQUIRE("minus_jacobian", std::fabs(num - K(j, i)) <= tol, j, ",", i, " ", K(j, i), " differences ", num);
    }
  }
  if (T > 0) {
    const Mat I = K * J;
    for (int i = 0; i < T; ++i) for (int j = 0; j < T; ++j) REQUIRE("jacobian_product", std::fabs(I(i, j) - (i == j)) <= 1e-12, i, ",", j, " ", I(i, j));
  }
  // The product with the Jacobian.
  const int rows = c.range(0, 3);
  Vec am;
  for (int i = 0; i < rows * A; ++i) am.push_back(c.sym(3));
  Buf ba(am), bt(rows * T), bx(x);
  REQUIRE("right_multiply_failed", m->RightMultiplyByPlusJacobian(bx.get(), rows, ba.get(), bt.get()), "");
  for (int r = 0; r < rows; ++r) for (int j = 0; j < T; ++j) {
    LD t = 0, s = 1e-300L;
    for (int i = 0; i < A; ++i) { t += (LD)am[r * A + i] * J(i, j); s += fabsl((LD)am[r * A + i] * J(i, j)); }
    REQUIRE("right_multiply", std::fabs((double)(t - bt.get()[r * T + j])) <= 1e-14 * s, r, ",", j, " ", bt.get()[r * T + j], " expected ", (double)t);
  }
  // Static and dynamic sizes are the same manifold.
  std::unique_ptr<Manifold> o = Make(p, !dyn);
  const Vec y2 = Plus(c, *o, x, d), b2 = Minus(c, *o, y, x);
  for (int i = 0; i < A; ++i) REQUIRE("static_dynamic", std::fabs(y[i] - y2[i]) <= 1e-13 * sc(i), i);
  for (int j = 0; j < T; ++j) REQUIRE("static_dynamic", std::fabs(b[j] - b2[j]) <= 1e-13 * 40 * amp, j);
  if (p.kind == kAutoQuat) {
    const Mat Q = PlusJ(c, *Make({kQuat, 4, {}}, false), x), M = MinusJ(c, *Make({kQuat, 4, {}}, false), x);
    REQUIRE("autodiff_jacobian", (Q - J).norm() <= 1e-13 && (M - K).norm() <= 1e-12, "");
  }
  c.nontrivial(T > 0 && d != zero);
}

PBT_PROP(laws, 250000, 12000000) { const Part p = GenPart(c); CheckPart(c, p, c.coin()); }

// ---- products -----------------------------------------------------------------------------
// A manifold whose parts are only known at run time, held by pointer, as products allow.
static void CheckProduct(Case& c, const Manifold& m, const std::vector<Part>& parts) {
  int A = 0, T = 0;
  Vec x, d, z;
  for (auto& p : parts) {
    A += p.size; T += p.tangent();
    const Vec px = GenPoint(c, p), pd = GenStep(c, p);
    Append(&x, px); Append(&d, pd);
    Append(&z, Plus(c, *Make(p, true), px, GenStep(c, p, false)));
  }
  c.note() << "product of " << parts.size() << " x=" << S(x) << " d=" << S(d);
  c.label(parts.size() == 2 ? "product of 2" : parts.size() == 3 ? "product of 3" : "nested product");
  c.nontrivial(T > 0);
  REQUIRE("sizes", m.AmbientSize() == A && m.TangentSize() == T, m.AmbientSize(), " ", m.TangentSize());
  const Vec y = Plus(c, m, x, d), b = Minus(c, m, z, x);
  const Mat J = PlusJ(c, m, x), K = MinusJ(c, m, x);
  Mat EJ = Mat::Zero(A, T), EK = Mat::Zero(T, A);
  int a = 0, t = 0;
  for (auto& p : parts) {
    const int pa = p.size, pt = p.tangent();
    auto s = [](const Vec& v, int o, int n) { return Vec(v.begin() + o, v.begin() + o + n); };
    auto q = Make(p, true);
    const Vec px = s(x, a, pa), py = Plus(c, *q, px, s(d, t, pt)), pb = Minus(c, *q, s(z, a, pa), px);
    const Vec gy = s(y, a, pa), gb = s(b, t, pt);
    for (int i = 0; i < pa; ++i) REQUIRE("plus_of_part", pbt::Close(gy[i], py[i], 1e-13, 1e-9 + Scale(px)), i);
    for (int i = 0; i < pt; ++i) REQUIRE("minus_of_part", pbt::Close(gb[i], pb[i], 1e-12, 20), i);
    if (pa * pt > 0) EJ.block(a, t, pa, pt) = PlusJ(c, *q, px);
    if (pa * pt > 0) EK.block(t, a, pt, pa) = MinusJ(c, *q, px);
    a += pa; t += pt;
  }
  for (int i = 0; i < A; ++i) for (int j = 0; j < T; ++j) {
    REQUIRE("plus_jacobian", pbt::Close(J(i, j), EJ(i, j), 1e-13, EJ.size() ? EJ.cwiseAbs().maxCoeff() : 1), i, ",", j);
    REQUIRE("minus_jacobian", pbt::Close(K(j, i), EK(j, i), 1e-13, EK.size() ? EK.cwiseAbs().maxCoeff() : 1), i, ",", j);
  }
}
PBT_PROP(product, 80000, 5000000) {
  auto P = [&] { return GenPart(c); };
  switch (c.range(0, 5)) {
    case 0: { Part a = P(), b = P(); ProductManifold<std::unique_ptr<Manifold>, std::unique_ptr<Manifold>> m(Make(a, c.coin()), Make(b, c.coin())); CheckProduct(c, m, {a, b}); break; }
    case 1: { Part a = P(), b = P(), e = P(); ProductManifold<std::shared_ptr<Manifold>, std::unique_ptr<Manifold>, std::unique_ptr<Manifold>> m(Make(a, c.coin()), Make(b, c.coin()), Make(e, c.coin())); CheckProduct(c, m, {a, b, e}); break; }
    case 2: { ProductManifold<QuaternionManifold, EuclideanManifold<3>> m; CheckProduct(c, m, {{kQuat, 4, {}}, {kEuclid, 3, {}}}); break; }
    case 3: { Part b = P(); auto pb = Make(b, true); ProductManifold m{SphereManifold<3>(), pb.get(), SubsetManifold(4, {1, 3})}; CheckProduct(c, m, {{kSphere, 3, {}}, b, {kSubset, 4, {1, 3}}}); break; }
    case 4: { ProductManifold<LineManifold<3>, SphereManifold<DYNAMIC>> m(LineManifold<3>{}, SphereManifold<DYNAMIC>(5)); CheckProduct(c, m, {{kLine, 6, {}}, {kSphere, 5, {}}}); break; }
    default: {
      Part b = P();
      using Inner = ProductManifold<EigenQuaternionManifold, std::unique_ptr<Manifold>>;
      ProductManifold<EuclideanManifold<2>, std::unique_ptr<Inner>, EuclideanManifold<DYNAMIC>> m(EuclideanManifold<2>{}, std::make_unique<Inner>(EigenQuaternionManifold{}, Make(b, c.coin())), EuclideanManifold<DYNAMIC>{c.range(0, 0)});
      CheckProduct(c, m, {{kEuclid, 2, {}}, {kEigen, 4, {}}, b});
    }
  }
}

// ---- failures are passed on ---------------------------------------------------------------
PBT_PROP(failure, 20000, 400000) {
  const int mask = c.range(0, 15), where = c.range(0, 1);
  std::unique_ptr<Manifold> e = std::make_unique<EuclideanManifold<2>>(), f = std::make_unique<FailManifold>(mask);
  const int A = 4, T = 3;
  ProductManifold<std::unique_ptr<Manifold>, std::unique_ptr<Manifold>> m(where ? std::move(e) : std::move(f), where ? std::move(f) : std::move(e));
  Vec x(A), y(A), d(T), j(A * T);
  for (double& t : x) t = c.sym(3);
  for (double& t : d) t = c.sym(3);
  c.note() << "mask " << mask << " at " << where;
  c.nontrivial(mask != 0);
  REQUIRE("plus", m.Plus(x.data(), d.data(), y.data()) == !(mask & 1), mask);
  REQUIRE("plus_jacobian", m.PlusJacobian(x.data(), j.data()) == !(mask & 2), mask);
  REQUIRE("minus", m.Minus(x.data(), x.data(), d.data()) == !(mask & 4), mask);
  REQUIRE("minus_jacobian", m.MinusJacobian(x.data(), j.data()) == !(mask & 8), mask);
  Vec a(A), t(T);
  REQUIRE("right_multiply", m.RightMultiplyByPlusJacobian(x.data(), 1, a.data(), t.data()) == !(mask & 2), mask);
  AutoDiffManifold<FailFunctor, 2, 1> g;
  REQUIRE("autodiff", !g.Plus(x.data(), d.data(), y.data()) && !g.Minus(x.data(), x.data(), d.data()) && !g.PlusJacobian(x.data(), j.data()) && !g.MinusJacobian(x.data(), j.data()), "");
}

PBT_MAIN("C13", "the tangent space is not empty and the step is not zero")
