// C12: rotation conversions are mutually consistent.
// pbt-build: flavor=asan
// pbt-build: lib=no
#include <array>
#include <cstring>
#include <limits>
#include <memory>

#include "ceres/jet.h"
#include "ceres/rotation.h"
#include "pbt.h"

using pbt::Case;
typedef long double LD;
using ceres::CeresQuaternionOrder;
using ceres::EigenQuaternionOrder;
static const LD kPi = 3.14159265358979323846264338327950288L;

// ---------------------------------------------------------------- reference
struct M3 { LD v[3][3]; };
static M3 Mul(const M3& a, const M3& b) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      r.v[i][j] = 0;
      for (int k = 0; k < 3; ++k) r.v[i][j] += a.v[i][k] * b.v[k][j];
    }
  return r;
}
static M3 Hat(const LD w[3]) { return {{{0, -w[2], w[1]}, {w[2], 0, -w[0]}, {-w[1], w[0], 0}}}; }
// exp(hat(w)) and the left Jacobian sum hat^n/(n+1)!, from the closed forms.
static void Exp(const LD w[3], M3* R, M3* J) {
  const LD t2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
  const LD t = sqrtl(t2);
  LD a, b, c2;  // sin t/t, (1-cos t)/t^2, (t - sin t)/t^3
  if (t < 0.3L) {
    a = b = c2 = 0;
    LD term = 1;  // (-1)^n t^2n
    LD f = 1;     // (2n)!
    for (int n = 0; n < 14; ++n) {
      const LD f1 = f * (2 * n + 1), f2 = f1 * (2 * n + 2), f3 = f2 * (2 * n + 3);
      a += term / f1; b += term / f2; c2 += term / f3;
      term *= -t2;
      f = f2;
    }
  } else {
    a = sinl(t) / t; b = (1 - cosl(t)) / t2; c2 = (t - sinl(t)) / (t2 * t);
  }
  const M3 H = Hat(w), H2 = Mul(H, H);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      const LD e = i == j;
      R->v[i][j] = e + a * H.v[i][j] + b * H2.v[i][j];
      if (J) J->v[i][j] = e + b * H.v[i][j] + c2 * H2.v[i][j];
    }
}
static M3 Axis(int k, LD ang) {
  LD w[3] = {0, 0, 0};
  w[k] = ang;
  M3 r;
  Exp(w, &r, nullptr);
  return r;
}
// Quaternion (w,x,y,z) to matrix, any norm.
static M3 QuatR(const LD q[4]) {
  const LD n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
  const LD a = q[0], b = q[1], c = q[2], d = q[3];
  M3 r = {{{a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)},
           {2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)},
           {2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d}}};
  for (auto& row : r.v) for (LD& x : row) x /= n;
  return r;
}

// ---------------------------------------------------------------- generators
static std::string V(const double* x, int n) {
  std::string s = "[";
  for (int i = 0; i < n; ++i) s += pbt::Str(x[i], i + 1 < n ? "," : "]");
  return s;
}
static void GenAxis(Case& c, double a[3]) {
  switch (c.range(0, 3)) {
    case 0: {
      const int k = c.range(0, 2);
      a[0] = a[1] = a[2] = 0;
      a[k] = c.coin() ? -1 : 1;
      return;
    }
    case 1: {  // in a coordinate plane, or on a diagonal
      const int k = c.range(0, 2);
      const double t = c.pick({0.25, 0.5, 1.0, 1e-3, 1e-9, 1e-160});
      a[k] = 0; a[(k + 1) % 3] = c.coin() ? 1 : -1; a[(k + 2) % 3] = t;
      if (c.coin()) a[k] = c.coin() ? t : -t;
      break;
    }
    default:
      for (int i = 0; i < 3; ++i) a[i] = c.gauss();
  }
  const double n = std::hypot(a[0], a[1], a[2]);
  if (n == 0) { a[0] = 1; return; }
  for (int i = 0; i < 3; ++i) a[i] /= n;
}
static double GenAngle(Case& c, double tiniest) {
  const double pi = 3.14159265358979323846;
  switch (c.range(0, 8)) {
    case 0: c.label("angle:zero"); return 0;
    case 1: c.label("angle:tiny"); return c.logreal(tiniest, 1e-8);
    case 2: c.label("angle:small"); return c.logreal(1e-8, 1e-1);
    case 3: c.label("angle:near-pi"); return pi - c.pick({-1.0, 1.0}) * c.logreal(1e-16, 1e-2);
    case 4: c.label("angle:pi"); return c.pick({pi, pi / 2, 2 * pi / 3, pi / 3, std::nextafter(pi, 4), 2 * pi});
    case 5: c.label("angle:beyond-pi"); return c.real(pi, 10);
    case 6: c.label("angle:trace-zero"); return 2 * pi / 3 + c.pick({-1.0, 1.0}) * c.logreal(1e-16, 1e-2);
    default: c.label("angle:generic"); return c.real(0, pi);
  }
}

template <int RS, int CS>
struct Mat {  // heap buffer with exactly the addressed extent, NaN filled
  static constexpr int N = 2 * RS + 2 * CS + 1;
  std::unique_ptr<double[]> p{new double[N]};
  Mat() { for (int i = 0; i < N; ++i) p[i] = -77.25; }
  ceres::MatrixAdapter<double, RS, CS> ad() { return ceres::MatrixAdapter<double, RS, CS>(p.get()); }
  ceres::MatrixAdapter<const double, RS, CS> cad() { return ceres::MatrixAdapter<const double, RS, CS>(p.get()); }
  void Set(const M3& r) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) p[i * RS + j * CS] = (double)r.v[i][j]; }
  // largest difference to the reference; also checks untouched padding.
  void Check(Case& c, const char* tag, const M3& r, double tol, double scale = 1) {
    std::set<int> used;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        used.insert(i * RS + j * CS);
        REQUIRE_CLOSE(tag, p[i * RS + j * CS], (double)r.v[i][j], tol, scale, "entry (", i, ",", j, ") strides ", RS, ",", CS);
      }
    for (int k = 0; k < N; ++k)
      if (!used.count(k)) REQUIRE("padding", p[k] == -77.25, "wrote between the strides at ", k);
  }
};

static void CheckRotationMatrix(Case& c, const double* R, double tol) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double s = 0;
      for (int k = 0; k < 3; ++k) s += R[3 * i + k] * R[3 * j + k];
      REQUIRE_CLOSE("orthonormal", s, i == j ? 1.0 : 0.0, tol, 1, "rows ", i, j);
    }
  const double det = R[0] * (R[4] * R[8] - R[5] * R[7]) - R[1] * (R[3] * R[8] - R[5] * R[6]) + R[2] * (R[3] * R[7] - R[4] * R[6]);
  REQUIRE_CLOSE("det", det, 1.0, tol, 1, "");
}

// All conversions of one rotation, in one quaternion order and layout.
template <class Order, int RS, int CS>
static void Conversions(Case& c, const double aa[3], double angle) {
  LD w[3] = {aa[0], aa[1], aa[2]};
  M3 ref;
  Exp(w, &ref, nullptr);
  const double tol = 1e-14 * std::max(1.0, angle);

  std::unique_ptr<double[]> q(new double[4]), back(new double[3]), qc(new double[4]);
  ceres::AngleAxisToQuaternion<Order>(aa, q.get());
  const LD qr[4] = {q[Order::kW], q[Order::kX], q[Order::kY], q[Order::kZ]};
  {  // exact expected quaternion
    LD t = sqrtl(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
    LD k = t < 1e-5L ? 0.5L - t * t / 48 : sinl(t / 2) / t;
    REQUIRE_CLOSE("aa->q", (double)qr[0], (double)cosl(t / 2), tol, 1, "w");
    for (int i = 0; i < 3; ++i)
      REQUIRE_CLOSE("aa->q", (double)qr[i + 1], (double)(k * w[i]), 1e-14, std::min(1.0, std::max(angle, 1e-300)), "component ", i);
  }
  {
    const double n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
    REQUIRE_CLOSE("q-unit", n, 1.0, 1e-14, 1, "");
  }
  Mat<RS, CS> R;
  ceres::AngleAxisToRotationMatrix(aa, R.ad());
  R.Check(c, "aa->R", ref, tol);
  {
    double d[9];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d[3 * i + j] = R.p[i * RS + j * CS];
    CheckRotationMatrix(c, d, 1e-14);
  }
  Mat<RS, CS> R2;
  ceres::QuaternionToRotation<Order>(q.get(), R2.ad());
  R2.Check(c, "q->R", ref, tol);
  Mat<RS, CS> R3;
  ceres::QuaternionToScaledRotation<Order>(q.get(), R3.ad());
  R3.Check(c, "q->scaledR", ref, tol);

  auto check_aa = [&](const char* tag, bool from_matrix) {
    const double n = std::hypot(back[0], back[1], back[2]);
    REQUIRE("aa-magnitude", n <= 3.14159265358979323846 * (1 + 4e-16), tag, " ", V(back.get(), 3));
    LD b[3] = {back[0], back[1], back[2]};
    M3 r;
    Exp(b, &r, nullptr);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        REQUIRE_CLOSE(tag, (double)r.v[i][j], (double)ref.v[i][j], tol, 1, "as matrices, got ", V(back.get(), 3));
    if (angle < 3.1 && !from_matrix)
      for (int i = 0; i < 3; ++i) REQUIRE_CLOSE(tag, back[i], aa[i], 1e-14, std::max(angle, 1e-300), "component ", i);
  };
  ceres::QuaternionToAngleAxis<Order>(q.get(), back.get());
  check_aa("q->aa", false);
  for (int i = 0; i < 4; ++i) qc[i] = -q[i];  // same rotation
  ceres::QuaternionToAngleAxis<Order>(qc.get(), back.get());
  check_aa("-q->aa", false);
  ceres::RotationMatrixToQuaternion<Order>(R.cad(), qc.get());
  {
    const double n = qc[0] * qc[0] + qc[1] * qc[1] + qc[2] * qc[2] + qc[3] * qc[3];
    REQUIRE_CLOSE("R->q-unit", n, 1.0, 1e-14, 1, "");
    double s = 0;
    for (int i = 0; i < 4; ++i) s += qc[i] * q[i];
    s = s < 0 ? -1 : 1;
    for (int i = 0; i < 4; ++i) REQUIRE_CLOSE("R->q", s * qc[i], q[i], tol, 1, "component ", i, " got ", V(qc.get(), 4), " want +-", V(q.get(), 4));
  }
  ceres::RotationMatrixToAngleAxis(R.cad(), back.get());
  check_aa("R->aa", true);

  // Rotating points.
  double p[3];
  for (int i = 0; i < 3; ++i) p[i] = c.sym(10);
  const double ps = std::hypot(p[0], p[1], p[2]);
  double want[3];
  for (int i = 0; i < 3; ++i) {
    LD s = 0;
    for (int k = 0; k < 3; ++k) s += ref.v[i][k] * p[k];
    want[i] = (double)s;
  }
  double out[3], in[3];
  ceres::UnitQuaternionRotatePoint<Order>(q.get(), p, out);
  for (int i = 0; i < 3; ++i) REQUIRE_CLOSE("q*p", out[i], want[i], tol, ps, i);
  const double s = c.pick({1.0, 2.0, -1.0, 0.001, 1e5});
  for (int i = 0; i < 4; ++i) qc[i] = s * q[i];
  ceres::QuaternionRotatePoint<Order>(qc.get(), p, out);
  for (int i = 0; i < 3; ++i) REQUIRE_CLOSE("scaled-q*p", out[i], want[i], tol, ps, i);
  Mat<RS, CS> R4;
  ceres::QuaternionToScaledRotation<Order>(qc.get(), R4.ad());
  M3 sref = ref;
  for (auto& row : sref.v) for (LD& x : row) x *= (LD)s * s;
  R4.Check(c, "scaled-R", sref, tol, s * s);
  ceres::AngleAxisRotatePoint(aa, p, out);
  for (int i = 0; i < 3; ++i) REQUIRE_CLOSE("aa*p", out[i], want[i], tol, ps, i);
  memcpy(in, p, sizeof in);
  ceres::AngleAxisRotatePoint(aa, in, in);
  for (int i = 0; i < 3; ++i) REQUIRE("aa*p-inplace", in[i] == out[i], "component ", i);
}

PBT_PROP(conversions, 300000, 8000000) {
  double ax[3], aa[3];
  GenAxis(c, ax);
  const double ang = GenAngle(c, 1e-320);
  for (int i = 0; i < 3; ++i) aa[i] = ax[i] * ang;
  const double angle = std::hypot(aa[0], aa[1], aa[2]);
  c.note() << "angle_axis=" << V(aa, 3);
  c.nontrivial(angle > 0);
  const int layout = c.range(0, 4);
  const bool eig = c.coin();
  c.label(pbt::Str("layout:", layout, eig ? " eigen-order" : " ceres-order"));
  c.note() << " layout " << layout << (eig ? " eigen" : " ceres");
#define GO(RS, CS) (eig ? Conversions<EigenQuaternionOrder, RS, CS>(c, aa, angle) : Conversions<CeresQuaternionOrder, RS, CS>(c, aa, angle))
  switch (layout) {
    case 0: GO(1, 3); break;
    case 1: GO(3, 1); break;
    case 2: GO(4, 1); break;
    case 3: GO(1, 4); break;
    default: GO(7, 2); break;
  }
  // The array overloads use the documented storage order.
  double A[9], B[9], q[4], q2[4];
  ceres::AngleAxisToRotationMatrix(aa, A);
  ceres::AngleAxisToRotationMatrix(aa, ceres::ColumnMajorAdapter3x3(B));
  REQUIRE("default-order", !memcmp(A, B, sizeof A), "AngleAxisToRotationMatrix is column major");
  ceres::AngleAxisToQuaternion(aa, q);
  ceres::QuaternionToRotation(q, A);
  ceres::QuaternionToRotation(q, ceres::RowMajorAdapter3x3(B));
  REQUIRE("default-order", !memcmp(A, B, sizeof A), "QuaternionToRotation is row major");
  ceres::QuaternionToScaledRotation(q, A);
  ceres::QuaternionToScaledRotation(q, ceres::RowMajorAdapter3x3(B));
  REQUIRE("default-order", !memcmp(A, B, sizeof A), "QuaternionToScaledRotation is row major");
  ceres::AngleAxisToRotationMatrix(aa, A);
  ceres::RotationMatrixToQuaternion(A, q);
  ceres::RotationMatrixToQuaternion(ceres::ColumnMajorAdapter3x3<const double>(A), q2);
  REQUIRE("default-order", !memcmp(q, q2, sizeof q), "RotationMatrixToQuaternion is column major");
  ceres::RotationMatrixToAngleAxis(A, q);
  ceres::RotationMatrixToAngleAxis(ceres::ColumnMajorAdapter3x3<const double>(A), q2);
  REQUIRE("default-order", !memcmp(q, q2, 3 * sizeof(double)), "RotationMatrixToAngleAxis is column major");
}

// ------------------------------------------------------ quaternion algebra
template <class Order>
static void Algebra(Case& c) {
  double z[4], w[4], zw[4], cj[4];
  for (int i = 0; i < 4; ++i) z[i] = c.sym(c.pick({1.0, 100.0}));
  for (int i = 0; i < 4; ++i) w[i] = c.sym(c.pick({1.0, 100.0}));
  c.note() << "z=" << V(z, 4) << " w=" << V(w, 4);
  const LD a[4] = {z[Order::kW], z[Order::kX], z[Order::kY], z[Order::kZ]};
  const LD b[4] = {w[Order::kW], w[Order::kX], w[Order::kY], w[Order::kZ]};
  LD na = 0, nb = 0;
  for (int i = 0; i < 4; ++i) na += a[i] * a[i], nb += b[i] * b[i];
  ceres::QuaternionProduct<Order>(z, w, zw);
  LD want[4];
  want[0] = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3];
  for (int i = 0; i < 3; ++i) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    want[i + 1] = a[0] * b[i + 1] + b[0] * a[i + 1] + a[j + 1] * b[k + 1] - a[k + 1] * b[j + 1];
  }
  const double got[4] = {zw[Order::kW], zw[Order::kX], zw[Order::kY], zw[Order::kZ]};
  const double sc = (double)sqrtl(na * nb);
  for (int i = 0; i < 4; ++i) REQUIRE_CLOSE("product", got[i], (double)want[i], 1e-15, sc, "component ", i);
  ceres::QuaternionConjugate<Order>(z, cj);
  REQUIRE("conjugate", cj[Order::kW] == z[Order::kW] && cj[Order::kX] == -z[Order::kX] && cj[Order::kY] == -z[Order::kY] && cj[Order::kZ] == -z[Order::kZ], V(cj, 4));
  double in[4];
  memcpy(in, z, sizeof in);
  ceres::QuaternionConjugate<Order>(in, in);
  REQUIRE("conjugate-inplace", !memcmp(in, cj, sizeof in), V(in, 4));
  if (na > 1e-6 && nb > 1e-6) {
    c.nontrivial();
    // R(zw) = R(z) R(w), and q, -q, conj behave.
    double R[9], S[9];
    ceres::QuaternionToRotation<Order>(zw, R);
    M3 prod = Mul(QuatR(a), QuatR(b));
    for (int i = 0; i < 9; ++i) REQUIRE_CLOSE("homomorphism", R[i], (double)prod.v[i / 3][i % 3], 1e-14, 1, i);
    CheckRotationMatrix(c, R, 1e-13);
    ceres::QuaternionToRotation<Order>(z, R);
    ceres::QuaternionToRotation<Order>(cj, S);
    for (int i = 0; i < 9; ++i) REQUIRE_CLOSE("conj=transpose", R[i], S[(i % 3) * 3 + i / 3], 1e-14, 1, i);
  }
  // MakeQuaternion / ConvertQuaternion
  auto mq = ceres::MakeQuaternion<Order>(1.0, 2.0, 3.0, 4.0);
  REQUIRE("make", mq[Order::kW] == 1 && mq[Order::kX] == 2 && mq[Order::kY] == 3 && mq[Order::kZ] == 4, "");
  std::array<double, 4> za{z[0], z[1], z[2], z[3]};
  auto ce = ceres::ConvertQuaternion<CeresQuaternionOrder, Order>(za);
  auto ei = ceres::ConvertQuaternion<EigenQuaternionOrder, Order>(za);
  for (int i = 0; i < 4; ++i) REQUIRE("convert", ce[i] == (double)a[i] && ei[(i + 3) % 4] == (double)a[i], i);
}
PBT_PROP(quaternion_algebra, 20000, 400000) {
  if (c.coin()) Algebra<EigenQuaternionOrder>(c); else Algebra<CeresQuaternionOrder>(c);
  double x[3], y[3], xy[3];
  for (int i = 0; i < 3; ++i) x[i] = c.sym(5), y[i] = c.sym(5);
  ceres::CrossProduct(x, y, xy);
  for (int i = 0; i < 3; ++i) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    REQUIRE_CLOSE("cross", xy[i], (double)((LD)x[j] * y[k] - (LD)x[k] * y[j]), 1e-15, 50, i);
  }
  REQUIRE_CLOSE("dot", ceres::DotProduct(x, y), (double)((LD)x[0] * y[0] + (LD)x[1] * y[1] + (LD)x[2] * y[2]), 1e-15, 75, "");
}

// ------------------------------------------------------------ Euler angles
template <class Sys, int RS, int CS>
static void Euler(Case& c, const char* name) {
  // name is e.g. "IntrinsicZYX": decode the convention independently.
  const bool intrinsic = name[0] == 'I';
  int ax[3];
  for (int i = 0; i < 3; ++i) ax[i] = name[9 + i] - 'X';
  const bool proper = ax[0] == ax[2];
  c.label(pbt::Str(intrinsic ? "intrinsic" : "extrinsic", proper ? " proper" : " tait-bryan"));
  const double pi = 3.14159265358979323846;
  double e[3];
  bool gimbal = false;
  for (int i = 0; i < 3; ++i) {
    switch (c.range(0, 4)) {
      case 0: e[i] = c.pick({0.0, pi / 2, -pi / 2, pi, -pi, pi / 4}); break;
      case 1: e[i] = c.pick({0.0, pi / 2, -pi / 2, pi}) + c.pick({-1.0, 1.0}) * c.logreal(1e-16, 1e-3); break;
      case 2: e[i] = c.real(-7, 7); break;
      default: e[i] = c.real(-pi, pi);
    }
  }
  c.note() << name << " angles=" << V(e, 3) << " strides " << RS << "," << CS;
  M3 A[3] = {Axis(ax[0], e[0]), Axis(ax[1], e[1]), Axis(ax[2], e[2])};
  const M3 ref = intrinsic ? Mul(A[0], Mul(A[1], A[2])) : Mul(A[2], Mul(A[1], A[0]));
  Mat<RS, CS> R;
  ceres::EulerAnglesToRotation<Sys>(e, R.ad());
  R.Check(c, "euler->R", ref, 4e-15 * std::max(1.0, std::fabs(e[0]) + std::fabs(e[1]) + std::fabs(e[2])));
  const double gd = std::fabs(proper ? std::sin(e[1]) : std::cos(e[1]));
  gimbal = gd < 1e-6;
  c.label(gimbal ? "gimbal-lock" : "regular");
  c.nontrivial();
  auto roundtrip = [&](const char* tag, Mat<RS, CS>& in) {
    double back[3] = {99, 99, 99};
    ceres::RotationMatrixToEulerAngles<Sys>(in.cad(), back);
    for (int i = 0; i < 3; ++i)
      REQUIRE("euler-range", std::fabs(back[i]) <= pi * (1 + 4e-16), tag, " ", V(back, 3));
    if (proper) REQUIRE("euler-range", back[1] >= 0 && back[1] <= pi * (1 + 4e-16), tag, " ", V(back, 3));
    else REQUIRE("euler-range", std::fabs(back[1]) <= pi / 2 * (1 + 4e-16), tag, " ", V(back, 3));
    M3 B[3] = {Axis(ax[0], back[0]), Axis(ax[1], back[1]), Axis(ax[2], back[2])};
    const M3 r = intrinsic ? Mul(B[0], Mul(B[1], B[2])) : Mul(B[2], Mul(B[1], B[0]));
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        REQUIRE_CLOSE(tag, (double)r.v[i][j], (double)ref.v[i][j], 1e-13, 1, "entry ", i, ",", j, " angles ", V(back, 3), " gimbal distance ", gd);
  };
  roundtrip("R->euler", R);
  Mat<RS, CS> P;  // the correctly rounded matrix instead of the library's own
  P.Set(ref);
  roundtrip("R->euler(ref)", P);
  // The same rotation arriving through another representation: the entries that
  // vanish at gimbal lock are then pure rounding noise.
  for (int k = 0; k < P.N; ++k) if (P.p[k] != -77.25) P.p[k] += 1e-16 * c.range(-2, 2);
  roundtrip("R->euler(noisy)", P);
  double aq[4], aw[3];
  ceres::RotationMatrixToQuaternion(R.cad(), aq);
  ceres::QuaternionToRotation(aq, P.ad());
  roundtrip("q->R->euler", P);
  ceres::RotationMatrixToAngleAxis(R.cad(), aw);
  ceres::AngleAxisToRotationMatrix(aw, P.ad());
  roundtrip("aa->R->euler", P);
}
#define SYS(X) X(XYZ) X(XYX) X(XZY) X(XZX) X(YZX) X(YZY) X(YXZ) X(YXY) X(ZXY) X(ZXZ) X(ZYX) X(ZYZ)
PBT_PROP(euler, 200000, 5000000) {
  const int which = c.range(0, 23);
  const bool rm = c.coin();
  int k = 0;
#define ONE(N) \
  if (which == k++) { if (rm) Euler<ceres::Extrinsic##N, 3, 1>(c, "Extrinsic" #N); else Euler<ceres::Extrinsic##N, 1, 4>(c, "Extrinsic" #N); } \
  if (which == k++) { if (rm) Euler<ceres::Intrinsic##N, 3, 1>(c, "Intrinsic" #N); else Euler<ceres::Intrinsic##N, 1, 4>(c, "Intrinsic" #N); }
  SYS(ONE)
}
PBT_PROP(euler_degrees, 10000, 200000) {
  double e[3], R[9], S[12];
  for (int i = 0; i < 3; ++i) e[i] = c.coin() ? c.pick({0.0, 90.0, -90.0, 180.0, 45.0, 1e-9}) : c.real(-400, 400);
  c.note() << "degrees=" << V(e, 3);
  c.nontrivial();
  ceres::EulerAnglesToRotationMatrix(e, 3, R);
  M3 ref = Mul(Axis(2, e[2] * kPi / 180), Mul(Axis(1, e[1] * kPi / 180), Axis(0, e[0] * kPi / 180)));
  for (int i = 0; i < 9; ++i) REQUIRE_CLOSE("euler-degrees", R[i], (double)ref.v[i / 3][i % 3], 1e-14, 1, i);
  CheckRotationMatrix(c, R, 1e-14);
  ceres::EulerAnglesToRotationMatrix(e, ceres::MatrixAdapter<double, 1, 4>(S));
  for (int i = 0; i < 9; ++i) REQUIRE("euler-degrees-layout", S[(i / 3) + 4 * (i % 3)] == R[i], i);
  // Rows and columns as the generic system.
  double rad[3] = {e[0] * ceres::constants::pi / 180, e[1] * ceres::constants::pi / 180, e[2] * ceres::constants::pi / 180};
  double T[9];
  ceres::EulerAnglesToRotation<ceres::ExtrinsicXYZ>(rad, T);
  for (int i = 0; i < 9; ++i) REQUIRE_CLOSE("euler-degrees=XYZ", R[i], T[i], 2e-14, 1, i);
}

// ------------------------------------------------------------- derivatives
typedef ceres::Jet<double, 3> J3;
static void AsJets(const double* a, J3* j) { for (int i = 0; i < 3; ++i) j[i] = J3(a[i], i); }
template <class Order>
static void Derivatives(Case& c) {
  double ax[3], aa[3];
  GenAxis(c, ax);
  for (double& x : ax) if (std::fabs(x) < 1e-20) x = 0;
  double ang = GenAngle(c, 1e-140);
  for (int i = 0; i < 3; ++i) aa[i] = ax[i] * ang;
  const double angle = std::hypot(aa[0], aa[1], aa[2]);
  c.note() << "angle_axis=" << V(aa, 3);
  c.nontrivial(angle > 0);
  LD w[3] = {aa[0], aa[1], aa[2]};
  M3 ref, JL;
  Exp(w, &ref, &JL);
  J3 ja[3], jq[4], R[9], p[3], out[3];
  AsJets(aa, ja);
  // 1-cos(theta) loses all digits at theta ~ sqrt(eps); divided by theta this is
  // the accuracy that the closed form can deliver for the derivative.
  const double cancel = angle > 0 ? 4 * std::min(angle, 1e-15 / angle) : 0;
  const double tol = 2e-14 * std::max(1.0, angle * angle) + cancel;
  // dR/dw_k = hat(JL e_k) R
  M3 dR[3];
  for (int k = 0; k < 3; ++k) {
    LD col[3] = {JL.v[0][k], JL.v[1][k], JL.v[2][k]};
    dR[k] = Mul(Hat(col), ref);
  }
  auto checkR = [&](const char* tag, const J3* M, bool colmajor) {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        const J3& x = colmajor ? M[i + 3 * j] : M[3 * i + j];
        REQUIRE_CLOSE(tag, x.a, (double)ref.v[i][j], tol, 1, "value ", i, ",", j);
        for (int k = 0; k < 3; ++k) REQUIRE_CLOSE(tag, x.v[k], (double)dR[k].v[i][j], tol, 1, "d(", i, ",", j, ")/dw", k);
      }
  };
  ceres::AngleAxisToRotationMatrix(ja, R);
  checkR("d aa->R", R, true);
  ceres::AngleAxisToQuaternion<Order>(ja, jq);
  J3 Q[9];
  ceres::QuaternionToRotation<Order>(jq, Q);
  checkR("d aa->q->R", Q, false);
  // rotate a point
  double pt[3];
  for (int i = 0; i < 3; ++i) pt[i] = c.sym(3), p[i] = J3(pt[i]);
  auto checkp = [&](const char* tag) {
    for (int i = 0; i < 3; ++i)
      for (int k = 0; k < 3; ++k) {
        LD s = 0;
        for (int j = 0; j < 3; ++j) s += dR[k].v[i][j] * pt[j];
        REQUIRE_CLOSE(tag, out[i].v[k], (double)s, tol, 6, "d out", i, "/dw", k);
      }
  };
  ceres::AngleAxisRotatePoint(ja, p, out); checkp("d aa*p");
  ceres::UnitQuaternionRotatePoint<Order>(jq, p, out); checkp("d q*p");
  ceres::QuaternionRotatePoint<Order>(jq, p, out); checkp("d q*p (normalised)");
  // Round trips have identity derivative away from the branch point at pi.
  if (angle < 3.1) {
    J3 b[3], q2[4];
    const double amp = 4e-14 / std::max(0.01, 3.14159265 - angle);
    auto ident = [&](const char* tag) {
      for (int i = 0; i < 3; ++i) {
        REQUIRE_CLOSE(tag, b[i].a, aa[i], 1e-13, std::max(1.0, angle), "value ", i);
        for (int k = 0; k < 3; ++k) REQUIRE_CLOSE(tag, b[i].v[k], i == k ? 1.0 : 0.0, amp, 1, "d", i, "/d", k);
      }
    };
    ceres::QuaternionToAngleAxis<Order>(jq, b); ident("d aa->q->aa");
    // through a matrix, small angles lose accuracy relative to the angle: d(angle)/angle
    if (angle == 0 || angle > 1e-3) {
      ceres::RotationMatrixToQuaternion<Order>(R, q2);
      ceres::QuaternionToAngleAxis<Order>(q2, b);
      if (angle > 0) {
        for (int i = 0; i < 3; ++i)
          for (int k = 0; k < 3; ++k) REQUIRE_CLOSE("d aa->R->q->aa", b[i].v[k], i == k ? 1.0 : 0.0, 4e-14 / std::min(1.0, angle) / std::max(0.01, 3.14159265 - angle), 1, "d", i, "/d", k, " got ", b[i].v[k]);
      } else {
        ident("d aa->R->q->aa at 0");
      }
    }
  }
}
PBT_PROP(derivatives, 150000, 3000000) {
  if (c.coin()) Derivatives<EigenQuaternionOrder>(c); else Derivatives<CeresQuaternionOrder>(c);
}
// Euler angles through duals: R(e) derivative against elementary rotations.
template <class Sys>
static void EulerDeriv(Case& c, const char* name) {
  const bool intrinsic = name[0] == 'I';
  int ax[3];
  for (int i = 0; i < 3; ++i) ax[i] = name[9 + i] - 'X';
  const bool proper = ax[0] == ax[2];
  const double pi = 3.14159265358979323846;
  double e[3];
  for (int i = 0; i < 3; ++i) e[i] = c.real(-3, 3);
  e[1] = proper ? c.real(0.05, pi - 0.05) : c.real(-pi / 2 + 0.05, pi / 2 - 0.05);
  c.note() << name << " " << V(e, 3);
  c.nontrivial();
  J3 je[3], R[9], back[3];
  AsJets(e, je);
  ceres::EulerAnglesToRotation<Sys>(je, R);
  for (int k = 0; k < 3; ++k) {
    M3 A[3] = {Axis(ax[0], e[0]), Axis(ax[1], e[1]), Axis(ax[2], e[2])};
    LD u[3] = {0, 0, 0};
    u[ax[k]] = 1;
    A[k] = Mul(Hat(u), A[k]);
    const M3 d = intrinsic ? Mul(A[0], Mul(A[1], A[2])) : Mul(A[2], Mul(A[1], A[0]));
    for (int i = 0; i < 9; ++i) REQUIRE_CLOSE("d euler->R", R[i].v[k], (double)d.v[i / 3][i % 3], 1e-14, 1, "entry ", i, " angle ", k);
  }
  ceres::RotationMatrixToEulerAngles<Sys>(R, back);
  for (int i = 0; i < 3; ++i) {
    REQUIRE_CLOSE("R->euler value", std::remainder(back[i].a - e[i], 2 * pi), 0.0, 1e-12, 1, "angle ", i);
    for (int k = 0; k < 3; ++k) REQUIRE_CLOSE("d R->euler", back[i].v[k], i == k ? 1.0 : 0.0, 1e-11, 1, "d", i, "/d", k);
  }
}
PBT_PROP(euler_derivatives, 15000, 300000) {
  const int which = c.range(0, 23);
  int k = 0;
#define OND(N) \
  if (which == k++) EulerDeriv<ceres::Extrinsic##N>(c, "Extrinsic" #N); \
  if (which == k++) EulerDeriv<ceres::Intrinsic##N>(c, "Intrinsic" #N);
  SYS(OND)
}

PBT_MAIN("C12", "the rotation is not the identity (conversions), or the operands are non-zero quaternions / Euler angle triples")
