// C26: cubic interpolation is interpolating, smooth and exact on low degrees.
// pbt-build: flavor=asan
// pbt-build: lib=no
#include <cmath>
#include <memory>

#include "ceres/cubic_interpolation.h"
#include "ceres/jet.h"
#include "pbt.h"

using pbt::Case;
using pbt::Str;
typedef long double LD;

// Catmull-Rom on [0,1] from its defining conditions (Hermite basis).
static void Spline(LD p0, LD p1, LD p2, LD p3, LD t, LD* f, LD* d) {
  const LD m1 = (p2 - p0) / 2, m2 = (p3 - p1) / 2, t2 = t * t, t3 = t2 * t;
  *f = (2 * t3 - 3 * t2 + 1) * p1 + (t3 - 2 * t2 + t) * m1 + (-2 * t3 + 3 * t2) * p2 + (t3 - t2) * m2;
  *d = (6 * t2 - 6 * t) * p1 + (3 * t2 - 4 * t + 1) * m1 + (-6 * t2 + 6 * t) * p2 + (3 * t2 - 2 * t) * m2;
}
static int64_t ClampIdx(LD i, int b, int e) { return i < b ? 0 : i > e - 1 ? e - 1 - b : (int64_t)i - b; }

// A query coordinate relative to [b, e): inside, on a sample, near an edge, outside, far outside.
static double Query(Case& c, int b, int e, std::string* kind) {
  switch (c.range(0, 7)) {
    case 0: case 1: *kind = "inside"; return c.real(b, e - 1);
    case 2: *kind = "sample"; return c.range(b, e - 1);
    case 3: *kind = "cell"; return c.range(b - 3, e + 3) + c.unit();
    case 4: *kind = "edge"; return c.range(b - 2, e + 1) + c.pick({1e-12, -1e-12, 1e-7, -1e-7});
    case 5: *kind = "outside"; return c.coin() ? b - c.logreal(0.1, 1e3) : e + c.logreal(0.1, 1e3);
    case 6: *kind = "far"; return c.coin() ? b - c.logreal(1e3, 1e8) : e + c.logreal(1e3, 1e8);
    default: *kind = "beyond int"; return c.pick({3e9, -3e9, 2147483647.0, -2147483648.0, 2147483646.5, -2147483647.25, 1e12, -1e12, 1e300, -1e300, HUGE_VAL, -HUGE_VAL});
  }
}
static int Begin(Case& c) { return c.pick({0, 0, 1, -1, -7, 13, 1000, -100000}); }

template <typename T> static T Value(Case& c) {
  if constexpr (std::is_same_v<T, unsigned char>) return (T)c.range(0, 255);
  else if constexpr (std::is_integral_v<T>) return (T)c.range(-1000, 1000);
  else return (T)c.sym(10);
}

template <typename T, int D, bool I>
static void Check1D(Case& c) {
  const int b = Begin(c), n = c.size(1, 9), e = b + n;
  std::unique_ptr<T[]> data(new T[n * D]);  // exact size: reads outside are caught
  std::vector<std::vector<LD>> val(n, std::vector<LD>(D));
  double scale = 1;
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < D; ++k) {
      const T v = Value<T>(c);
      data[I ? i * D + k : k * n + i] = v;
      val[i][k] = v;
      scale = std::max(scale, std::fabs((double)v));
    }
  ceres::Grid1D<T, D, I> grid(data.get(), b, e);
  ceres::CubicInterpolator<ceres::Grid1D<T, D, I>> interp(grid);
  std::string kind;
  const double x = Query(c, b, e, &kind);
  c.note() << "1D n=" << n << " begin=" << b << " dim=" << D << (I ? " interleaved" : " planar") << " x=" << x << " (" << kind << ")";
  c.label(kind);
  c.nontrivial(n > 1);
  const LD fl = floorl((LD)x);
  LD t = (LD)x - fl;
  if (!std::isfinite(x)) t = 0;
  std::unique_ptr<double[]> f(new double[D]), d(new double[D]), f2(new double[D]);
  interp.Evaluate(x, f.get(), d.get());
  interp.Evaluate(x, f2.get());
  ceres::Jet<double, 2> jx, jf[D];
  jx.a = x;
  jx.v[0] = c.sym(2);
  jx.v[1] = c.sym(2);
  interp.Evaluate(jx, jf);
  for (int k = 0; k < D; ++k) {
    LD F, Dv;
    auto P = [&](LD i) { return val[ClampIdx(i, b, e)][k]; };
    Spline(P(fl - 1), P(fl), P(fl + 1), P(fl + 2), t, &F, &Dv);
    // x - floor(x) is exact unless x is a tiny negative number.
    REQUIRE_CLOSE("value", f[k], (double)F, 1e-13, scale, "component ", k);
    REQUIRE_CLOSE("derivative", d[k], (double)Dv, 1e-13, scale, "component ", k);
    REQUIRE("value-only", f2[k] == f[k], "component ", k);
    if (kind == "sample") REQUIRE_CLOSE("interpolates", f[k], (double)P(x), 1e-15, scale, "component ", k);
    if (x <= b || x >= e) {  // the clamped exterior is constant beyond one cell
      if (x <= b - 2.0 || x >= e + 1.0) {
        REQUIRE_CLOSE("exterior", f[k], (double)val[x <= b ? 0 : n - 1][k], 1e-14, scale, "component ", k);
        REQUIRE_CLOSE("exterior", d[k], 0.0, 1e-14, scale, "component ", k);
      }
    }
    REQUIRE("jet", jf[k].a == f[k] && pbt::Close(jf[k].v[0], d[k] * jx.v[0], 1e-14, scale) && pbt::Close(jf[k].v[1], d[k] * jx.v[1], 1e-14, scale), "component ", k);
  }
  // C1 across the cell boundary next to x.
  if (std::fabs(x) < 1e6) {
    const double edge = std::floor(x) + 1, below = std::nextafter(edge, -HUGE_VAL);
    double fa[D], da[D], fb[D], db[D];
    interp.Evaluate(below, fa, da);
    interp.Evaluate(edge, fb, db);
    for (int k = 0; k < D; ++k) {
      REQUIRE_CLOSE("continuity", fa[k], fb[k], 1e-9, scale, "at ", edge);
      REQUIRE_CLOSE("smoothness", da[k], db[k], 1e-8, scale, "at ", edge);
    }
  }
}
PBT_PROP(one_dim, 600000, 3000000) {
  switch (c.range(0, 9)) {
    case 0: Check1D<double, 1, true>(c); break;
    case 1: Check1D<double, 2, true>(c); break;
    case 2: Check1D<double, 3, false>(c); break;
    case 3: Check1D<float, 1, false>(c); break;
    case 4: Check1D<unsigned char, 3, true>(c); break;
    case 5: Check1D<int, 2, false>(c); break;
    case 6: Check1D<unsigned char, 4, false>(c); break;
    case 7: Check1D<double, 5, true>(c); break;
    case 8: Check1D<short, 1, true>(c); break;
    default: Check1D<double, 1, false>(c);
  }
}

template <typename T, int D, bool RM, bool I>
static void Check2D(Case& c) {
  const int rb = Begin(c), cb = Begin(c), nr = c.size(1, 7), nc = c.size(1, 7), re = rb + nr, ce = cb + nc;
  std::unique_ptr<T[]> data(new T[nr * nc * D]);
  std::vector<LD> val(nr * nc * D);
  double scale = 1;
  for (int i = 0; i < nr; ++i)
    for (int j = 0; j < nc; ++j)
      for (int k = 0; k < D; ++k) {
        const T v = Value<T>(c);
        const int idx = RM ? i * nc + j : j * nr + i;
        data[I ? idx * D + k : k * nr * nc + idx] = v;
        val[(i * nc + j) * D + k] = v;
        scale = std::max(scale, std::fabs((double)v));
      }
  ceres::Grid2D<T, D, RM, I> grid(data.get(), rb, re, cb, ce);
  ceres::BiCubicInterpolator<ceres::Grid2D<T, D, RM, I>> interp(grid);
  std::string kr, kc;
  const double r = Query(c, rb, re, &kr), q = Query(c, cb, ce, &kc);
  c.note() << "2D " << nr << "x" << nc << " begin=" << rb << "," << cb << " dim=" << D << (RM ? " row-major" : " col-major") << (I ? " interleaved" : " planar") << " at " << r << "(" << kr
           << ") " << q << "(" << kc << ")";
  c.label("row " + kr);
  c.label("col " + kc);
  c.nontrivial(nr > 1 && nc > 1);
  const LD fr = floorl((LD)r), fc = floorl((LD)q);
  const LD tr = std::isfinite(r) ? (LD)r - fr : 0, tc = std::isfinite(q) ? (LD)q - fc : 0;
  std::unique_ptr<double[]> f(new double[D]), dr(new double[D]), dc(new double[D]), g(new double[D]);
  interp.Evaluate(r, q, f.get(), dr.get(), dc.get());
  const double r0 = r, q0 = q;
  interp.Evaluate(r0, q0, g.get());
  ceres::Jet<double, 3> jr, jq, jf[D];
  jr.a = r;
  jq.a = q;
  for (int i = 0; i < 3; ++i) { jr.v[i] = c.sym(2); jq.v[i] = c.sym(2); }
  interp.Evaluate(jr, jq, jf);
  for (int k = 0; k < D; ++k) {
    auto P = [&](LD i, LD j) { return val[(ClampIdx(i, rb, re) * nc + ClampIdx(j, cb, ce)) * D + k]; };
    LD F[4], G[4], v, vr, vc, tmp;
    for (int i = 0; i < 4; ++i) Spline(P(fr - 1 + i, fc - 1), P(fr - 1 + i, fc), P(fr - 1 + i, fc + 1), P(fr - 1 + i, fc + 2), tc, &F[i], &G[i]);
    Spline(F[0], F[1], F[2], F[3], tr, &v, &vr);
    Spline(G[0], G[1], G[2], G[3], tr, &vc, &tmp);
    REQUIRE_CLOSE("value", f[k], (double)v, 1e-13, 3 * scale, "component ", k);
    REQUIRE_CLOSE("derivative", dr[k], (double)vr, 1e-13, 3 * scale, "d/dr component ", k);
    REQUIRE_CLOSE("derivative", dc[k], (double)vc, 1e-13, 3 * scale, "d/dc component ", k);
    REQUIRE("value-only", g[k] == f[k], "component ", k);
    if (kr == "sample" && kc == "sample") REQUIRE_CLOSE("interpolates", f[k], (double)P(r, q), 1e-15, scale, "component ", k);
    REQUIRE("jet", jf[k].a == f[k], "component ", k);
    for (int i = 0; i < 3; ++i) REQUIRE_CLOSE("jet", jf[k].v[i], dr[k] * jr.v[i] + dc[k] * jq.v[i], 1e-13, 3 * scale, "component ", k);
  }
}
PBT_PROP(two_dim, 450000, 2000000) {
  switch (c.range(0, 9)) {
    case 0: Check2D<double, 1, true, true>(c); break;
    case 1: Check2D<double, 2, true, true>(c); break;
    case 2: Check2D<double, 2, false, true>(c); break;
    case 3: Check2D<double, 3, true, false>(c); break;
    case 4: Check2D<double, 3, false, false>(c); break;
    case 5: Check2D<float, 1, false, true>(c); break;
    case 6: Check2D<unsigned char, 3, true, true>(c); break;
    case 7: Check2D<int, 2, false, false>(c); break;
    case 8: Check2D<unsigned char, 4, false, true>(c); break;
    default: Check2D<double, 1, false, false>(c);
  }
}

// Quadratics are reproduced exactly in the interior (1D), biquadratics in 2D.
PBT_PROP(polynomials, 200000, 800000) {
  const double a[6] = {c.sym(3), c.sym(3), c.sym(3), c.sym(3), c.sym(3), c.sym(3)};
  const int n = c.range(4, 9), b = c.pick({0, -3, 5});
  auto px = [&](LD x) { return a[0] + x * (a[1] + x * a[2]); };
  auto dx = [&](LD x) { return a[1] + 2 * x * a[2]; };
  auto py = [&](LD y) { return a[3] + y * (a[4] + y * a[5]); };
  auto dy = [&](LD y) { return a[4] + 2 * y * a[5]; };
  std::vector<double> d1(n), d2(n * n);
  double s = 1;
  for (int i = 0; i < n; ++i) d1[i] = (double)px(b + i), s = std::max(s, std::fabs(d1[i]));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d2[i * n + j] = (double)(px(b + i) * py(b + j)), s = std::max(s, std::fabs(d2[i * n + j]));
  const double x = c.real(b + 1, b + n - 2), y = c.real(b + 1, b + n - 2);
  c.note() << "quadratic n=" << n << " x=" << x << " y=" << y;
  c.nontrivial(a[2] != 0);
  ceres::Grid1D<double> g1(d1.data(), b, b + n);
  ceres::CubicInterpolator<ceres::Grid1D<double>> i1(g1);
  ceres::Grid2D<double> g2(d2.data(), b, b + n, b, b + n);
  ceres::BiCubicInterpolator<ceres::Grid2D<double>> i2(g2);
  double f, d, fr, fc;
  i1.Evaluate(x, &f, &d);
  REQUIRE_CLOSE("quadratic", f, (double)px(x), 1e-13, s, "");
  REQUIRE_CLOSE("quadratic", d, (double)dx(x), 1e-13, s, "");
  i2.Evaluate(x, y, &f, &fr, &fc);
  REQUIRE_CLOSE("biquadratic", f, (double)(px(x) * py(y)), 1e-13, 10 * s, "");
  REQUIRE_CLOSE("biquadratic", fr, (double)(dx(x) * py(y)), 1e-13, 10 * s, "");
  REQUIRE_CLOSE("biquadratic", fc, (double)(px(x) * dy(y)), 1e-13, 10 * s, "");
}

PBT_MAIN("C26", "the grid has more than one sample in every direction")
