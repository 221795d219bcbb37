// C35: small dense kernels compute what they are named for.
// pbt-build: flavor=asan
// pbt-build: extra=C35_blas.cc C35_psd.cc:-fno-sanitize=all C35_qr.cc
#include "C35_impl.h"

// ------------------------------------------------------ Householder vectors
template <int N> void HouseholderCase(Case& c, int n) {
  typedef Eigen::Matrix<double, N, 1> V;
  V x(n);
  const double scale = c.chance(1, 3) ? std::pow(10.0, c.range(-100, 100)) : 1.0;
  for (int i = 0; i < n; ++i) x(i) = c.sym(2);
  if (c.chance(1, 4)) {  // close to the axis
    const double e = std::pow(10.0, -c.range(1, 20));
    for (int i = 0; i + 1 < n; ++i) x(i) *= e;
    if (x(n - 1) == 0) x(n - 1) = c.coin() ? 1 : -1;
    c.label("near axis");
  }
  if (c.chance(1, 6)) x(n - 1) = 0;
  x *= scale;
  c.note() << "householder n=" << n << " scale " << scale << " x=" << x.transpose();
  V v(n);
  double beta = -1;
  ComputeHouseholderVector<V, double, N>(x, &v, &beta);
  REQUIRE("pivot", v(n - 1) == 1.0, v(n - 1));
  REQUIRE("finite", v.allFinite() && std::isfinite(beta), "beta ", beta);
  LVec lv(n), lx(n);
  for (int i = 0; i < n; ++i) { lv(i) = v(i); lx(i) = x(i); }
  // orthogonal: beta v'v = 2 or beta = 0
  const LD vv = lv.squaredNorm();
  REQUIRE("orthogonal", beta == 0 || fabsl(beta * vv - 2) <= 1e-14L * n, "beta v'v = ", (double)(beta * vv));
  const LVec h = lx - lv * ((LD)beta * lv.dot(lx));
  const LD nx = lx.norm();
  for (int i = 0; i < n; ++i)
    REQUIRE("maps-to-axis", fabsl(h(i) - (i + 1 == n ? nx : 0)) <= 2e-8L * nx, "H x = ", h.template cast<double>().transpose());
  V y(n);
  for (int i = 0; i < n; ++i) y(i) = c.sym(3);
  const V hy = ApplyHouseholderVector(y, v, beta);
  LVec ly(n);
  for (int i = 0; i < n; ++i) ly(i) = y(i);
  const LVec want = ly - lv * ((LD)beta * lv.dot(ly));
  for (int i = 0; i < n; ++i)
    REQUIRE("apply", fabsl(hy(i) - want(i)) <= 1e-14L * n * (1 + ly.norm()), i, ": ", hy(i), " want ", (double)want(i));
  c.nontrivial(nx > 0);
}
PBT_PROP(householder, 15000, 480000) {
  switch (c.range(0, 4)) {
    case 0: HouseholderCase<2>(c, 2); break;
    case 1: HouseholderCase<3>(c, 3); break;
    case 2: HouseholderCase<4>(c, 4); break;
    case 3: HouseholderCase<8>(c, 8); break;
    default: HouseholderCase<D>(c, c.size(2, 12));
  }
}

// ------------------------------------------------------- vector operations
PBT_PROP(vector_ops, 600, 24000) {
  static ContextImpl context;
  const int threads = c.range(1, 6);
  context.EnsureMinimumThreads(threads);
  // Sizes around and above the block size of the parallel path (1 << 16).
  int n;
  switch (c.range(0, 3)) {
    case 0: n = c.range(0, 50); break;
    case 1: n = (1 << 16) + c.range(-2, 2); break;
    case 2: n = 2 * (1 << 16) + c.range(-3, 3); break;
    default: n = c.range(0, 5) * (1 << 16) + c.range(0, 1000);
  }
  const double a = c.sym(3), b = c.sym(3);
  const int stride = c.range(1, 999);
  Vector x(n), y(n);
  // Values from a cheap deterministic sequence, to keep the tape short.
  uint64_t st = c.draw(1u << 30) * 2 + 1;
  for (int i = 0; i < n; ++i) {
    st = st * 6364136223846793005ull + 1442695040888963407ull;
    x[i] = static_cast<double>(static_cast<int64_t>(st) >> 40) / 1048576.0;
    y[i] = static_cast<double>((static_cast<int64_t>(st << 20)) >> 40) / 1048576.0 + stride;
  }
  c.note() << "n=" << n << " threads " << threads;
  c.label(n <= (1 << 16) ? "one block" : "several blocks");
  c.nontrivial(n > (1 << 16) && threads > 1);
  LD nn = 0, dd = 0, da = 0;
  for (int i = 0; i < n; ++i) { nn += (LD)x[i] * x[i]; dd += (LD)x[i] * y[i]; da += fabsl((LD)x[i] * y[i]); }
  REQUIRE("norm", fabsl(Norm(x, &context, threads) - sqrtl(nn)) <= 1e-12L * sqrtl(nn), Norm(x, &context, threads), " want ", (double)sqrtl(nn));
  REQUIRE("dot", fabsl(Dot(x, y, &context, threads) - dd) <= 1e-12L * da, Dot(x, y, &context, threads), " want ", (double)dd);
  Vector z = Vector::Constant(n, std::numeric_limits<double>::quiet_NaN());
  Axpby(a, x, b, y, z, &context, threads);
  for (int i = 0; i < n; ++i)
    REQUIRE("axpby", std::fabs(z[i] - (a * x[i] + b * y[i])) <= 1e-15 * (std::fabs(a * x[i]) + std::fabs(b * y[i])), "z[", i, "]=", z[i]);
  // in place, as conjugate gradients use it: x = a x + b y
  Vector w = x;
  Axpby(a, w, b, y, w, &context, threads);
  REQUIRE("axpby-in-place", w == z, "aliased result differs");
  Vector d = Vector::Constant(n, 7.0);
  Copy(x, d, &context, threads);
  REQUIRE("copy", d == x, "copy differs");
  ParallelAssign(&context, threads, d, y.array().square().matrix());
  for (int i = 0; i < n; ++i) REQUIRE("assign", d[i] == y[i] * y[i], "d[", i, "]=", d[i]);
  SetZero(d, &context, threads);
  REQUIRE("set-zero", n == 0 || d.isZero(0), "not zero");
  // A range inside a larger array: only it is cleared.
  const int lo = n ? c.range(0, n - 1) : 0, len = n ? c.range(0, n - lo) : 0;
  d = y;
  ParallelSetZero(&context, threads, d.data() + lo, len);
  for (int i = 0; i < n; ++i)
    REQUIRE("set-zero-range", d[i] == (i >= lo && i < lo + len ? 0.0 : y[i]), "d[", i, "]=", d[i], " range ", lo, "+", len);
}

// --------------------------------------------------------------- containers
template <typename T, int N, int S> void Containers(Case& c, int n) {
  ArraySelector<T, N, S> a(n);
  REQUIRE("size", static_cast<int>(a.size()) == n, a.size(), " want ", n);
  for (int i = 0; i < n; ++i) a[i] = T(i);
  for (int i = 0; i < n; ++i) REQUIRE("element", a[i] == T(i), i);
  REQUIRE("data", n == 0 || &a[n - 1] - a.data() == n - 1, "not contiguous");
  c.nontrivial(n > 0);
}
PBT_PROP(array_selector, 200, 16000) {
  typedef Jet<double, 4> J;
  const int n = c.range(0, 120);
  c.note() << "dynamic size " << n;
  Containers<double, DYNAMIC, 50>(c, n);
  Containers<J, DYNAMIC, 10>(c, n);
  Containers<double, 3, 50>(c, 3);
  Containers<double, 60, 50>(c, 60);
  Containers<double*, 50, 50>(c, 50);
}

PBT_MAIN("C35", "more than a one-by-one product (BLAS), a system of at least two unknowns (factorisations), a non-zero vector (Householder), several blocks and threads (vector operations)")
