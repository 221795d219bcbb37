// C09: dual numbers.  Included by two translation units that compile jet.h as
// C++17 and as C++20; DIM differs so that the instantiations are distinct.
#include <cmath>
#include <cstring>
#include <limits>

#include "ceres/jet.h"
#include "pbt.h"

namespace {
using pbt::Case;
using pbt::Str;
typedef long double LD;
constexpr int N = DIM;
typedef ceres::Jet<double, N> J;
typedef ceres::Jet<ceres::Jet<double, N>, N> JJ;  // nested
constexpr double kInf = std::numeric_limits<double>::infinity();
constexpr double kNan = std::numeric_limits<double>::quiet_NaN();

// ------------------------------------------------------------ unary table
struct Der { LD f, d, dd; };  // value, first and second derivative
struct Unary {
  const char* name;
  double lo, hi;       // domain sampled (open)
  bool logmag;         // sample magnitudes logarithmically
  LD abs_scale;        // rounding scale of the derivative beyond |f''x|+|f'|
  Der (*ref)(LD);
  J (*j)(const J&);
  JJ (*jj)(const JJ&);
  double (*s)(double);
  double nlo, nhi;     // sub-domain for nested jets
};
const LD kPiL = 3.14159265358979323846264338327950288L;
LD Jn(int n, LD x) { return jnl(n, x); }
Der BesselDer(int n, LD x) {
  auto j = [&](int m) { return m >= 0 ? Jn(m, x) : ((m % 2) ? -1 : 1) * Jn(-m, x); };
  return {j(n), 0.5L * (j(n - 1) - j(n + 1)), 0.25L * (j(n - 2) - 2 * j(n) + j(n + 2))};
}
#define F1(NAME, EXPR) \
  [](const J& x) -> J { using namespace ceres; return EXPR; }, [](const JJ& x) -> JJ { using namespace ceres; return EXPR; }
#define U(NAME, LO, HI, LOG, SC, F, D, DD, NLO, NHI)                              \
  {#NAME, LO, HI, LOG, SC, [](LD x) -> Der { (void)x; return {F, D, DD}; },       \
   [](const J& x) -> J { using ceres::NAME; return NAME(x); },                    \
   [](const JJ& x) -> JJ { using ceres::NAME; return NAME(x); },                  \
   [](double x) -> double { using ceres::NAME; using std::NAME; return NAME(x); }, NLO, NHI}
const std::vector<Unary>& Table() {
  static const std::vector<Unary> t = {
      U(abs, -1e300, 1e300, true, 0, fabsl(x), (x < 0 ? -1.0L : 1.0L), 0.0L, 0.01, 5),
      U(log, 1e-300, 1e300, true, 0, logl(x), 1 / x, -1 / (x * x), 0.05, 5),
      U(log10, 1e-300, 1e300, true, 0, log10l(x), 1 / (x * logl(10.0L)), -1 / (x * x * logl(10.0L)), 0.05, 5),
      U(log2, 1e-300, 1e300, true, 0, log2l(x), 1 / (x * logl(2.0L)), -1 / (x * x * logl(2.0L)), 0.05, 5),
      U(log1p, -0.999999, 1e300, true, 0, log1pl(x), 1 / (1 + x), -1 / ((1 + x) * (1 + x)), -0.9, 5),
      U(exp, -700, 700, true, 0, expl(x), expl(x), expl(x), -5, 5),
      U(exp2, -1000, 1000, true, 0, exp2l(x), exp2l(x) * logl(2.0L), exp2l(x) * logl(2.0L) * logl(2.0L), -5, 5),
      U(expm1, -700, 700, true, 1, expm1l(x), expl(x), expl(x), -5, 5),
      U(sqrt, 1e-300, 1e300, true, 0, sqrtl(x), 0.5L / sqrtl(x), -0.25L / (x * sqrtl(x)), 0.05, 5),
      U(cbrt, -1e140, 1e140, true, 0, cbrtl(x), 1 / (3 * cbrtl(x * x)), -2 / (9 * x * cbrtl(x * x)), 0.05, 5),
      U(cos, -1e5, 1e5, true, 1, cosl(x), -sinl(x), -cosl(x), -5, 5),
      U(sin, -1e5, 1e5, true, 1, sinl(x), cosl(x), -sinl(x), -5, 5),
      U(tan, -1.57, 1.57, true, 1, tanl(x), 1 + tanl(x) * tanl(x), 2 * tanl(x) * (1 + tanl(x) * tanl(x)), -1.3, 1.3),
      U(acos, -1, 1, true, 1, acosl(x), -1 / sqrtl((1 - x) * (1 + x)), -x / powl((1 - x) * (1 + x), 1.5L), -0.9, 0.9),
      U(asin, -1, 1, true, 1, asinl(x), 1 / sqrtl((1 - x) * (1 + x)), x / powl((1 - x) * (1 + x), 1.5L), -0.9, 0.9),
      U(atan, -1e150, 1e150, true, 0, atanl(x), 1 / (1 + x * x), -2 * x / ((1 + x * x) * (1 + x * x)), -5, 5),
      U(sinh, -700, 700, true, 0, sinhl(x), coshl(x), sinhl(x), -4, 4),
      U(cosh, -700, 700, true, 0, coshl(x), sinhl(x), coshl(x), -4, 4),
      U(tanh, -700, 700, true, 1, tanhl(x), 1 / (coshl(x) * coshl(x)), -2 * tanhl(x) / (coshl(x) * coshl(x)), -3, 3),
      U(floor, -1e6, 1e6, true, 0, floorl(x), 0.0L, 0.0L, -5, 5),
      U(ceil, -1e6, 1e6, true, 0, ceill(x), 0.0L, 0.0L, -5, 5),
      U(erf, -20, 20, true, 0, erfl(x), 2 / sqrtl(kPiL) * expl(-x * x), -4 * x / sqrtl(kPiL) * expl(-x * x), -3, 3),
      U(erfc, -20, 20, true, 0, erfcl(x), -2 / sqrtl(kPiL) * expl(-x * x), 4 * x / sqrtl(kPiL) * expl(-x * x), -3, 3),
      U(norm, -1e140, 1e140, true, 0, x * x, 2 * x, 2.0L, -5, 5),
#define BESS(NAME, n)                                                                        \
      {"BesselJ" #n, 0, 60, true, 1, [](LD x) -> Der { return BesselDer(n, x); },            \
       [](const J& x) -> J { return NAME; }, nullptr, [](double x) -> double { return NAME; }, 0, 0}
      BESS(ceres::BesselJ0(x), 0), BESS(ceres::BesselJ1(x), 1),
      BESS(ceres::BesselJn(2, x), 2), BESS(ceres::BesselJn(3, x), 3), BESS(ceres::BesselJn(7, x), 7),
      BESS(ceres::BesselJn(0, x), 0), BESS(ceres::BesselJn(1, x), 1),
#ifdef CERES_HAS_CPP17_BESSEL_FUNCTIONS
      {"cyl_bessel_j", 0.01, 40, true, 1, [](LD x) -> Der { return BesselDer(4, x); },
       [](const J& x) -> J { return ceres::cyl_bessel_j(4.0, x); }, nullptr,
       [](double x) -> double { return std::cyl_bessel_j(4.0, x); }, 0, 0},
      {"cyl_bessel_j(1/2)", 0.01, 40, true, 1,
       [](LD x) -> Der { LD k = sqrtl(2 / kPiL); return {k * sinl(x) / sqrtl(x), k * (cosl(x) / sqrtl(x) - 0.5L * sinl(x) / (x * sqrtl(x))), 0.0L}; },
       [](const J& x) -> J { return ceres::cyl_bessel_j(0.5, x); }, nullptr,
       [](double x) -> double { return std::cyl_bessel_j(0.5, x); }, 0, 0},
#endif
      {"unary-", -1e300, 1e300, true, 0, [](LD x) -> Der { return {-x, -1, 0}; }, F1(neg, -x), [](double x) { return -x; }, -5, 5},
      {"unary+", -1e300, 1e300, true, 0, [](LD x) -> Der { return {x, 1, 0}; }, F1(pos, +x), [](double x) { return x; }, -5, 5},
  };
  return t;
}

double GenInDomain(Case& c, double lo, double hi) {
  for (int tries = 0; tries < 50; ++tries) {
    double x;
    const double m = std::max(std::fabs(lo), std::fabs(hi));
    switch (c.range(0, 4)) {
      case 0: x = c.pick({1.0, 2.0, 0.5, 3.0, -1.0, -0.5, 1e-5, 0.25, -2.0}); break;
      case 1: x = c.logreal(std::max(m * 1e-300, 1e-150), m) * c.pick({1.0, -1.0}); break;
      case 2: {  // close to an end of the domain
        const double w = std::min(hi - lo, 1.0);
        const double d = c.logreal(1e-9, 0.3) * w;
        x = c.coin() ? lo + d : hi - d;
        break;
      }
      default: {
        const double l = std::max(lo, -50.0), h = std::min(hi, 50.0);
        x = c.real(std::min(l, h), h);
      }
    }
    if (x > lo && x < hi) return x;
  }
  return 0.5 * (std::max(lo, -2.0) + std::min(hi, 2.0));
}
double GenTangent(Case& c) {
  switch (c.range(0, 3)) {
    case 0: return 0;
    case 1: return c.pick({1.0, -1.0, 2.0});
    default: return c.sym(10);
  }
}
J GenJet(Case& c, double a) {
  J x(a);
  for (int i = 0; i < N; ++i) x.v[i] = GenTangent(c);
  return x;
}
std::string S(const J& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }

PBT_PROP(UNARY, 250000, 6000000) {
  const Unary& u = c.pick(Table());
  const double a = GenInDomain(c, u.lo, u.hi);
  const J x = GenJet(c, a);
  c.note() << u.name << S(x);
  c.label(u.name);
  bool nz = false;
  for (int i = 0; i < N; ++i) nz |= x.v[i] != 0;
  c.nontrivial(nz);
  const Der r = u.ref(a);
  const J y = u.j(x);
  // The scalar part is the ordinary function of the scalar part ...
  REQUIRE_CLOSE("unary-scalar", y.a, u.s(a), 4e-16, 0, u.name);
  if (std::fabs((double)r.f) < 1e308) REQUIRE_CLOSE("unary-value", y.a, (double)r.f, 1e-13, (double)(std::fabs((double)r.d * a) + u.abs_scale), u.name);
  // ... and each infinitesimal part the derivative times the tangent.
  if ((!strcmp(u.name, "floor") || !strcmp(u.name, "ceil")) && a == std::floor(a)) return;
  for (int i = 0; i < N; ++i) {
    const LD want = r.d * (LD)x.v[i];
    const LD tol = (fabsl(r.d) * 16 + 8 * fabsl(r.dd * a) + 64 * u.abs_scale) * fabsl((LD)x.v[i]) * 2.2e-16L + 1e-300L;
    if (!(fabsl(want) < 1e300L)) continue;
    REQUIRE("unary-derivative", std::isfinite(y.v[i]) && fabsl((LD)y.v[i] - want) <= tol, u.name, "'(", a, ")*", x.v[i], " = ", (double)want, " got ", y.v[i], " tol ", (double)tol);
  }
}

PBT_PROP(UNARY_NESTED, 80000, 2000000) {
  const Unary& u = c.pick(Table());
  if (!u.jj) c.discard();
  double a = c.real(u.nlo, u.nhi);
  if ((!strcmp(u.name, "floor") || !strcmp(u.name, "ceil")) && a == std::floor(a)) c.discard();
  JJ x;
  x.a = J(a);
  for (int i = 0; i < N; ++i) x.a.v[i] = c.sym(2);
  for (int i = 0; i < N; ++i) {
    x.v[i] = J(c.sym(2));
    for (int k = 0; k < N; ++k) x.v[i].v[k] = c.coin() ? 0 : c.sym(2);
  }
  c.note() << u.name << "(nested, a=" << a << ")";
  c.label(u.name);
  c.nontrivial();
  const JJ y = u.jj(x);
  const Der r = u.ref(a);
  const double sc = (double)(fabsl(r.f) + fabsl(r.d) + fabsl(r.dd) + u.abs_scale + fabsl(r.dd * r.d));
  REQUIRE_CLOSE("nested-value", y.a.a, (double)r.f, 1e-13, sc, u.name);
  for (int i = 0; i < N; ++i) {
    REQUIRE_CLOSE("nested-d", y.a.v[i], (double)(r.d * x.a.v[i]), 1e-12, 2 * sc, u.name);
    REQUIRE_CLOSE("nested-d", y.v[i].a, (double)(r.d * x.v[i].a), 1e-12, 2 * sc, u.name);
    for (int k = 0; k < N; ++k)
      REQUIRE_CLOSE("nested-dd", y.v[i].v[k], (double)(r.dd * x.v[i].a * x.a.v[k] + r.d * x.v[i].v[k]), 1e-11, 10 * sc * (1 + std::fabs(1 / a)), u.name, " at ", a, " ", i, ",", k);
  }
}

// ----------------------------------------------------------- binary table
struct Der2 { LD f, x, y, xx, xy, yy; };
struct Binary {
  const char* name;
  Der2 (*ref)(LD, LD);
  J (*j)(const J&, const J&);
  JJ (*jj)(const JJ&, const JJ&);
  J (*js)(const J&, double);   // right operand a scalar (null: unsupported)
  J (*sj)(double, const J&);
  double (*s)(double, double);
};
Der2 PowRef(LD x, LD y) {
  const LD f = powl(x, y);
  return {f, y * powl(x, y - 1), f * logl(x), y * (y - 1) * powl(x, y - 2), powl(x, y - 1) * (1 + y * logl(x)), f * logl(x) * logl(x)};
}
Der2 HypotRef(LD x, LD y) {
  const LD h = hypotl(x, y);
  return {h, x / h, y / h, y / h * (y / h) / h, -x / h * (y / h) / h, x / h * (x / h) / h};
}
Der2 Atan2Ref(LD y, LD x) {  // first argument y
  const LD n = x * x + y * y;
  return {atan2l(y, x), x / n, -y / n, -2 * x * y / (n * n), (y * y - x * x) / (n * n), 2 * x * y / (n * n)};
}
#define BIN(NAME, REF, EXPR, JS, SJ)                                                              \
  {NAME, REF, [](const J& x, const J& y) -> J { using namespace ceres; return EXPR; },            \
   [](const JJ& x, const JJ& y) -> JJ { using namespace ceres; return EXPR; }, JS, SJ,            \
   [](double x, double y) -> double { using namespace std; return EXPR; }}
#define RS(EXPR) [](const J& x, double y) -> J { using namespace ceres; return EXPR; }
#define LS(EXPR) [](double x, const J& y) -> J { using namespace ceres; return EXPR; }
const std::vector<Binary>& Table2() {
  auto add = [](LD x, LD y) -> Der2 { return {x + y, 1, 1, 0, 0, 0}; };
  auto sub = [](LD x, LD y) -> Der2 { return {x - y, 1, -1, 0, 0, 0}; };
  auto mul = [](LD x, LD y) -> Der2 { return {x * y, y, x, 0, 1, 0}; };
  auto div = [](LD x, LD y) -> Der2 { return {x / y, 1 / y, -x / (y * y), 0, -1 / (y * y), 2 * x / (y * y * y)}; };
  auto mx = [](LD x, LD y) -> Der2 { return x > y ? Der2{x, 1, 0, 0, 0, 0} : x < y ? Der2{y, 0, 1, 0, 0, 0} : Der2{x, 0.5L, 0.5L, 0, 0, 0}; };
  auto mn = [](LD x, LD y) -> Der2 { return x < y ? Der2{x, 1, 0, 0, 0, 0} : x > y ? Der2{y, 0, 1, 0, 0, 0} : Der2{x, 0.5L, 0.5L, 0, 0, 0}; };
  auto dim = [](LD x, LD y) -> Der2 { return x > y ? Der2{x - y, 1, -1, 0, 0, 0} : Der2{0, 0, 0, 0, 0, 0}; };
  auto cps = [](LD x, LD y) -> Der2 { return {copysignl(x, y), (std::signbit((double)x) ? -1.0L : 1.0L) * (std::signbit((double)y) ? -1.0L : 1.0L), 0, 0, 0, 0}; };
  static const std::vector<Binary> t = {
      BIN("+", add, x + y, RS(x + y), LS(x + y)),
      BIN("-", sub, x - y, RS(x - y), LS(x - y)),
      BIN("*", mul, x * y, RS(x * y), LS(x * y)),
      BIN("/", div, x / y, RS(x / y), LS(x / y)),
      {"+=", add, [](const J& x, const J& y) { J z = x; z += y; return z; }, [](const JJ& x, const JJ& y) { JJ z = x; z += y; return z; },
       [](const J& x, double y) { J z = x; z += y; return z; }, nullptr, [](double x, double y) { return x + y; }},
      {"-=", sub, [](const J& x, const J& y) { J z = x; z -= y; return z; }, [](const JJ& x, const JJ& y) { JJ z = x; z -= y; return z; },
       [](const J& x, double y) { J z = x; z -= y; return z; }, nullptr, [](double x, double y) { return x - y; }},
      {"*=", mul, [](const J& x, const J& y) { J z = x; z *= y; return z; }, [](const JJ& x, const JJ& y) { JJ z = x; z *= y; return z; },
       [](const J& x, double y) { J z = x; z *= y; return z; }, nullptr, [](double x, double y) { return x * y; }},
      {"/=", div, [](const J& x, const J& y) { J z = x; z /= y; return z; }, [](const JJ& x, const JJ& y) { JJ z = x; z /= y; return z; },
       [](const J& x, double y) { J z = x; z /= y; return z; }, nullptr, [](double x, double y) { return x / y; }},
      BIN("pow", PowRef, pow(x, y), RS(pow(x, y)), LS(pow(x, y))),
      BIN("hypot", HypotRef, hypot(x, y), nullptr, nullptr),
      BIN("atan2", Atan2Ref, atan2(x, y), nullptr, nullptr),
      BIN("copysign", cps, copysign(x, y), nullptr, nullptr),
      BIN("fmax", mx, fmax(x, y), RS(fmax(x, y)), LS(fmax(x, y))),
      BIN("fmin", mn, fmin(x, y), RS(fmin(x, y)), LS(fmin(x, y))),
      BIN("fdim", dim, fdim(x, y), RS(fdim(x, y)), LS(fdim(x, y))),
  };
  return t;
}
double GenMag(Case& c, double lo, double hi) {
  switch (c.range(0, 2)) {
    case 0: return c.pick({1.0, 2.0, 0.5, 3.0, -1.0, -2.0, 0.25});
    case 1: return c.logreal(lo, hi) * c.pick({1.0, -1.0});
    default: return c.sym(4);
  }
}
PBT_PROP(BINARY, 250000, 6000000) {
  const Binary& b = c.pick(Table2());
  const std::string n = b.name;
  double lo = 1e-70, hi = 1e70;
  if (n == "pow") lo = 1e-3, hi = 1e3;
  double xa = GenMag(c, lo, hi), ya = GenMag(c, lo, hi);
  const bool isdiv = n == "/" || n == "/=";
  if (n == "pow") { xa = std::fabs(xa); if (xa < 1e-3) xa = 1.5; if (std::fabs(ya) > 50) ya = 3; }
  if (isdiv && std::fabs(ya) < 1e-70) ya = 1;
  if ((n == "hypot" || n == "atan2") && std::fabs(xa) + std::fabs(ya) < 1e-70) xa = 1;
  if (n == "copysign" && ya == 0) ya = -1;
  if (c.chance(1, 6)) { ya = n == "pow" && std::fabs(xa) > 50 ? 2.0 : xa; if (ya == 0) ya = 1; c.label("equal operands"); }
  if (n == "atan2" && ya < 0 && c.chance(1, 4)) xa = c.pick({0.0, -0.0});
  const J x = GenJet(c, xa), y = GenJet(c, ya);
  c.note() << S(x) << " " << n << " " << S(y);
  c.label(n);
  c.nontrivial();
  const Der2 r = b.ref(xa, ya);
  const double sv = b.s(xa, ya);
  auto check = [&](const char* tag, const J& z, bool dx, bool dy) {
    REQUIRE_CLOSE(tag, z.a, sv, 1e-15, 0, n, " scalar part against the plain function");
    REQUIRE_CLOSE(tag, z.a, (double)r.f, 1e-13, 0, n, " scalar part");
    if (n == "atan2" && xa == 0) REQUIRE(tag, std::signbit(z.a) == std::signbit(sv), "branch of atan2(+-0, negative)");
    for (int i = 0; i < N; ++i) {
      const LD tx = dx ? r.x * x.v[i] : 0, ty = dy ? r.y * y.v[i] : 0;
      const LD want = tx + ty;
      LD mag = fabsl(tx) + fabsl(ty);
      if (n == "pow") mag *= 1 + fabsl((LD)ya * logl(xa));
      // value-scale terms that the quotient rule forms internally
      if (isdiv && dy) mag += fabsl(r.f / ya * (LD)y.v[i]);
      REQUIRE(tag, fabsl((LD)z.v[i] - want) <= 64 * 2.2e-16L * mag + 1e-290L, n, " component ", i, " got ", z.v[i], " want ", (double)want);
    }
  };
  check("binary", b.j(x, y), true, true);
  if (b.js) check("jet-op-scalar", b.js(x, ya), true, false);
  if (b.sj) check("scalar-op-jet", b.sj(xa, y), false, true);
  // in-place aliasing of compound operators
  if (n == "+=" ) { J z = x; z += z; for (int i = 0; i < N; ++i) REQUIRE("alias", z.a == 2 * x.a && z.v[i] == 2 * x.v[i], ""); }
  if (n == "*=" ) { J z = x; z *= z; for (int i = 0; i < N; ++i) REQUIRE_CLOSE("alias", z.v[i], 2 * x.a * x.v[i], 1e-15, 0, ""); }
  if (n == "-=" ) { J z = x; z -= z; for (int i = 0; i < N; ++i) REQUIRE("alias", z.a == 0 && z.v[i] == 0, ""); }
  if (n == "/=" && xa != 0) { J z = x; z /= z; REQUIRE_CLOSE("alias", z.a, 1.0, 1e-15, 0, ""); for (int i = 0; i < N; ++i) REQUIRE_CLOSE("alias", z.v[i], 0.0, 1e-15, std::fabs(x.v[i] / xa), ""); }
}
PBT_PROP(BINARY_NESTED, 60000, 1500000) {
  const Binary& b = c.pick(Table2());
  const std::string n = b.name;
  double xa = c.pick({1.0, -1.0}) * c.real(0.3, 3), ya = c.pick({1.0, -1.0}) * c.real(0.3, 3);
  if (n == "pow") xa = std::fabs(xa);
  JJ x, y;
  auto fill = [&](JJ& z, double a) {
    z.a = J(a);
    for (int i = 0; i < N; ++i) {
      z.a.v[i] = c.sym(2);
      z.v[i] = J(c.sym(2));
      for (int k = 0; k < N; ++k) z.v[i].v[k] = c.coin() ? 0 : c.sym(2);
    }
  };
  fill(x, xa);
  fill(y, ya);
  c.note() << xa << " " << n << " " << ya << " (nested)";
  c.label(n);
  c.nontrivial();
  const Der2 r = b.ref(xa, ya);
  const JJ z = b.jj(x, y);
  const double sc = (double)(fabsl(r.f) + fabsl(r.x) + fabsl(r.y) + fabsl(r.xx) + fabsl(r.xy) + fabsl(r.yy)) * 8;
  REQUIRE_CLOSE("nested2-value", z.a.a, (double)r.f, 1e-13, 0, n);
  for (int i = 0; i < N; ++i) {
    REQUIRE_CLOSE("nested2-d", z.a.v[i], (double)(r.x * x.a.v[i] + r.y * y.a.v[i]), 1e-13, sc, n);
    REQUIRE_CLOSE("nested2-d", z.v[i].a, (double)(r.x * x.v[i].a + r.y * y.v[i].a), 1e-13, sc, n);
    for (int k = 0; k < N; ++k) {
      const LD want = r.xx * x.v[i].a * x.a.v[k] + r.xy * (x.v[i].a * y.a.v[k] + y.v[i].a * x.a.v[k]) + r.yy * y.v[i].a * y.a.v[k] + r.x * x.v[i].v[k] + r.y * y.v[i].v[k];
      REQUIRE_CLOSE("nested2-dd", z.v[i].v[k], (double)want, 1e-12, sc * 4, n, " ", i, ",", k);
    }
  }
}

// --------------------------------------------------------------- ternary
PBT_PROP(TERNARY, 60000, 1500000) {
  const double e = c.pick({1.0, 1e-60, 1e60, 3.0, 0.1});
  double a[3];
  for (double& v : a) v = c.sym(3) * e;
  const J x = GenJet(c, a[0]), y = GenJet(c, a[1]), z = GenJet(c, a[2]);
  c.note() << S(x) << S(y) << S(z);
  c.nontrivial();
  auto comb = [&](const char* tag, const J& r, LD f, LD dx, LD dy, LD dz, LD fscale) {
    REQUIRE("ternary-value", fabsl((LD)r.a - f) <= 1e-15L * fscale, tag, " got ", r.a, " want ", (double)f);
    for (int i = 0; i < N; ++i) {
      const LD t[3] = {dx * x.v[i], dy * y.v[i], dz * z.v[i]};
      REQUIRE("ternary-derivative", fabsl((LD)r.v[i] - (t[0] + t[1] + t[2])) <= 2e-15L * (fabsl(t[0]) + fabsl(t[1]) + fabsl(t[2])), tag, " component ", i, " got ", r.v[i]);
    }
  };
  const LD X = a[0], Y = a[1], Z = a[2];
  const LD h = sqrtl(X * X + Y * Y + Z * Z);
  if (h > 0) comb("hypot3", ceres::hypot(x, y, z), h, X / h, Y / h, Z / h, h);
  comb("fma", ceres::fma(x, y, z), X * Y + Z, Y, X, 1, fabsl(X * Y) + fabsl(Z));
#if __cplusplus >= 202002L
  {
    const J t = ceres::lerp(x, y, z);
    const LD f = X + Z * (Y - X), fs = fabsl(X) + fabsl(Z * Y) + fabsl(Z * X);
    REQUIRE("lerp", fabsl(t.a - f) <= 2e-15L * fs, "got ", t.a, " want ", (double)f);
    for (int i = 0; i < N; ++i) {
      const LD p[3] = {(1 - Z) * x.v[i], Z * y.v[i], (Y - X) * z.v[i]};
      const LD m = (1 + fabsl(Z)) * fabsl((LD)x.v[i]) + fabsl(p[1]) + (fabsl(X) + fabsl(Y)) * fabsl((LD)z.v[i]);
      REQUIRE("lerp-derivative", fabsl((LD)t.v[i] - p[0] - p[1] - p[2]) <= 2e-15L * m, "component ", i);
    }
    const J m = ceres::midpoint(x, y);
    REQUIRE_CLOSE("midpoint", m.a, (double)((X + Y) / 2), 1e-15, (double)(fabsl(X) + fabsl(Y)), "");
    for (int i = 0; i < N; ++i) REQUIRE_CLOSE("midpoint-derivative", m.v[i], (double)(((LD)x.v[i] + y.v[i]) / 2), 1e-15, std::fabs(x.v[i]) + std::fabs(y.v[i]), "");
  }
#endif
}

// -------------------- comparisons, classification, selection, special values
double GenSpecial(Case& c) {
  return c.pick({0.0, -0.0, 1.0, -1.0, kInf, -kInf, kNan, 5e-324, -5e-324, 1e-310, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 2.0, -2.0, 0.5});
}
bool Same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
PBT_PROP(SPECIAL, 120000, 2000000) {
  const double a = c.coin() ? GenSpecial(c) : c.sym(3), b = c.chance(1, 4) ? a : c.coin() ? GenSpecial(c) : c.sym(3);
  const J x = GenJet(c, a), y = GenJet(c, b);
  JJ nx;
  nx.a = x;
  c.note() << S(x) << " vs " << S(y);
  c.nontrivial();
#define CMP(op)                                                                                   \
  REQUIRE("compare", (x op y) == (a op b) && (x op b) == (a op b) && (a op y) == (a op b) && (nx op b) == (a op b) && (nx op JJ(y)) == (a op b), #op);
  CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=)
#define CMPF(f) REQUIRE("compare", ceres::f(x, y) == std::f(a, b) && ceres::f(x, b) == std::f(a, b) && ceres::f(a, y) == std::f(a, b), #f);
  CMPF(isless) CMPF(isgreater) CMPF(islessequal) CMPF(isgreaterequal) CMPF(islessgreater) CMPF(isunordered)
#define CLS(f) REQUIRE("classify", ceres::f(x) == std::f(a) && ceres::f(nx) == std::f(a), #f);
  CLS(isfinite) CLS(isinf) CLS(isnan) CLS(isnormal) CLS(signbit) CLS(fpclassify)
  // The tangent never matters for these.
  J xt = x;
  for (int i = 0; i < N; ++i) xt.v[i] = c.pick({kNan, kInf, 0.0, 7.0});
  REQUIRE("classify-tangent", ceres::isfinite(xt) == std::isfinite(a) && ceres::isnan(xt) == std::isnan(a) && ceres::isinf(xt) == std::isinf(a) && (xt < y) == (a < b) && (xt == y) == (a == b), "");
  // Selection: NaNs are missing data, equality averages, otherwise the operand itself.
  auto sel = [&](const char* tag, const J& r, const J& rx, const J& ry, bool takex, bool takey) {
    const J* p = takex ? &rx : takey ? &ry : nullptr;
    if (p) {
      REQUIRE("select", Same(r.a, p->a), tag, " got ", r.a);
      for (int i = 0; i < N; ++i) REQUIRE("select", Same(r.v[i], p->v[i]), tag, " tangent ", i, " got ", r.v[i], " want ", p->v[i]);
    } else if (std::fabs(rx.a) < 1e308) {
      REQUIRE("select-equal", r.a == rx.a, tag);
      for (int i = 0; i < N; ++i) REQUIRE_CLOSE("select-equal", r.v[i], 0.5 * (rx.v[i] + ry.v[i]), 1e-15, 20, tag);
    }
  };
  if (!(std::isnan(a) && std::isnan(b))) {
    const bool mx = std::isnan(b) || a > b, my = std::isnan(a) || b > a;
    sel("fmax", fmax(x, y), x, y, mx, my);
    sel("fmax js", fmax(x, b), x, J(b), mx, my);
    sel("fmax sj", fmax(a, y), J(a), y, mx, my);
    const bool ix = std::isnan(b) || a < b, iy = std::isnan(a) || b < a;
    sel("fmin", fmin(x, y), x, y, ix, iy);
    sel("fmin js", fmin(x, b), x, J(b), ix, iy);
    sel("fmin sj", fmin(a, y), J(a), y, ix, iy);
  } else {
    REQUIRE("select-nan", std::isnan(fmax(x, y).a) && std::isnan(fmin(x, y).a), "");
  }
  {
    const J d = fdim(x, y);
    REQUIRE("fdim", Same(d.a, std::fdim(a, b)), "got ", d.a);
    if (!(a > b) && !std::isnan(a) && !std::isnan(b)) for (int i = 0; i < N; ++i) REQUIRE("fdim-zero", d.v[i] == 0, i);
  }
  // Scalar parts of every unary function at special values follow the scalar function.
  const Unary& u = c.pick(Table());
  if (std::strncmp(u.name, "BesselJ", 7) && std::strncmp(u.name, "cyl", 3)) {
    const double s = u.s(a);
    REQUIRE("special-scalar", Same(u.j(x).a, s), u.name, "(", a, ") = ", s, " but the jet has ", u.j(x).a);
  }
  // abs and copysign keep the sign information of zeros.
  const J ab = ceres::abs(x);
  for (int i = 0; i < N; ++i) if (!std::isnan(a)) REQUIRE("abs-tangent", ab.v[i] == (std::signbit(a) ? -1 : 1) * x.v[i], i);
}

// Documented special cases of the power functions.
PBT_PROP(POW_SPECIAL, 80000, 1000000) {
  const int kind = c.range(0, 5);
  c.label(Str("kind", kind));
  c.nontrivial();
  auto inttan = [&](J& g, bool zero) { for (int i = 0; i < N; ++i) g.v[i] = zero ? 0 : (c.coin() ? 0.0 : c.sym(3)); };
  switch (kind) {
    case 0: {  // f == 0, g > 1: zero with zero derivatives
      const J f = GenJet(c, c.pick({0.0, -0.0})), g = GenJet(c, c.pick({2.0, 1.5, 1.0000001, 100.0}));
      c.note() << "pow(" << S(f) << "," << S(g) << ")";
      const J r = pow(f, g);
      REQUIRE("pow 0^g", r.a == 0, r.a);
      for (int i = 0; i < N; ++i) REQUIRE("pow 0^g", r.v[i] == 0, r.v[i]);
      break;
    }
    case 1: {  // f == 0, g == 1: f itself
      const J f = GenJet(c, 0.0), g = GenJet(c, 1.0);
      c.note() << "pow(" << S(f) << "," << S(g) << ")";
      const J r = pow(f, g);
      for (int i = 0; i < N; ++i) REQUIRE("pow 0^1", r.a == 0 && r.v[i] == f.v[i], S(r));
      break;
    }
    case 2: {  // scalar 0 to a positive dual power
      const J g = GenJet(c, c.pick({0.5, 1.0, 2.0, 1e-3, 30.0}));
      const J r = pow(0.0, g);
      c.note() << "pow(0," << S(g) << ")";
      for (int i = 0; i < N; ++i) REQUIRE("pow scalar 0^g", r.a == 0 && r.v[i] == 0, S(r));
      break;
    }
    case 3: {  // f < 0, integer g
      const J f = GenJet(c, -c.real(0.1, 5));
      const int k = c.range(-6, 6);
      J g(k);
      inttan(g, c.coin());
      c.note() << "pow(" << S(f) << "," << S(g) << ")";
      const J r = pow(f, g);
      LD p = powl(f.a, k), d = k * powl(f.a, k - 1);
      REQUIRE_CLOSE("pow neg^int", r.a, (double)p, 1e-14, 0, "");
      for (int i = 0; i < N; ++i)
        if (g.v[i] != 0) REQUIRE("pow neg^int", std::isnan(r.v[i]), "the derivative is undefined, got ", r.v[i]);
        else REQUIRE_CLOSE("pow neg^int", r.v[i], (double)(d * f.v[i]), 1e-14, 0, "component ", i);
      const J r2 = pow(f, static_cast<double>(k));
      REQUIRE_CLOSE("pow neg^scalar", r2.a, (double)p, 1e-14, 0, "");
      for (int i = 0; i < N; ++i) REQUIRE_CLOSE("pow neg^scalar", r2.v[i], (double)(d * f.v[i]), 1e-14, 0, "component ", i);
      break;
    }
    case 4: {  // negative scalar base, integer dual exponent
      const double f = -c.real(0.1, 5);
      const int k = c.range(-6, 6);
      J g(k);
      inttan(g, c.coin());
      c.note() << "pow(" << f << "," << S(g) << ")";
      const J r = pow(f, g);
      REQUIRE_CLOSE("pow negscalar^int", r.a, (double)powl(f, k), 1e-14, 0, "");
      for (int i = 0; i < N; ++i)
        if (g.v[i] != 0) REQUIRE("pow negscalar^int", std::isnan(r.v[i]), r.v[i]);
        else REQUIRE("pow negscalar^int", r.v[i] == 0, r.v[i]);
      break;
    }
    default: {  // f < 0, fractional g: not a number
      const J f = GenJet(c, -c.real(0.1, 5)), g = GenJet(c, c.range(-3, 3) + 0.5);
      c.note() << "pow(" << S(f) << "," << S(g) << ")";
      const J r = pow(f, g);
      REQUIRE("pow neg^frac", std::isnan(r.a), S(r));
      REQUIRE("pow neg^frac", std::isnan(pow(f.a, g).a) && std::isnan(pow(f, g.a).a), "");
    }
  }
}

// Expressions over Eigen matrices of jets and limits.
PBT_PROP(EIGEN, 10000, 200000) {
  const int n = c.range(1, 4), m = c.range(1, 4), k = c.range(1, 4);
  Eigen::Matrix<J, -1, -1> A(n, m), B(m, k);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) A(i, j) = GenJet(c, c.sym(3));
  for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) B(i, j) = GenJet(c, c.sym(3));
  c.nontrivial();
  c.note() << n << "x" << m << "x" << k << " products";
  const Eigen::Matrix<J, -1, -1> P = A * B;
  const double s = c.sym(2);
  const Eigen::Matrix<J, -1, -1> Q = A * s + A.cwiseAbs();
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < k; ++j) {
      LD a = 0, v[N] = {0};
      for (int l = 0; l < m; ++l) {
        a += (LD)A(i, l).a * B(l, j).a;
        for (int t = 0; t < N; ++t) v[t] += (LD)A(i, l).a * B(l, j).v[t] + (LD)A(i, l).v[t] * B(l, j).a;
      }
      REQUIRE_CLOSE("eigen-product", P(i, j).a, (double)a, 1e-15, 50, "");
      for (int t = 0; t < N; ++t) REQUIRE_CLOSE("eigen-product", P(i, j).v[t], (double)v[t], 1e-15, 300, "");
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      const J& a = A(i, j);
      REQUIRE_CLOSE("eigen-scalar", Q(i, j).a, a.a * s + std::fabs(a.a), 1e-15, 10, "");
      for (int t = 0; t < N; ++t) REQUIRE_CLOSE("eigen-scalar", Q(i, j).v[t], a.v[t] * s + (std::signbit(a.a) ? -1 : 1) * a.v[t], 1e-15, 50, "");
    }
  typedef std::numeric_limits<J> LJ;
  typedef std::numeric_limits<double> LDb;
  REQUIRE("limits", LJ::epsilon().a == LDb::epsilon() && LJ::max().a == LDb::max() && LJ::min().a == LDb::min() && LJ::lowest().a == LDb::lowest() && LJ::infinity().a == LDb::infinity() && std::isnan(LJ::quiet_NaN().a) && LJ::denorm_min().a == LDb::denorm_min(), "");
  REQUIRE("limits", LJ::digits == LDb::digits && LJ::digits10 == LDb::digits10 && LJ::max_digits10 == LDb::max_digits10 && LJ::radix == LDb::radix && LJ::min_exponent == LDb::min_exponent && LJ::max_exponent == LDb::max_exponent && LJ::max_exponent10 == LDb::max_exponent10, "");
  REQUIRE("limits-min-exponent10", LJ::min_exponent10 == LDb::min_exponent10, LJ::min_exponent10);
}
}  // namespace
