// C35: block products.
#include "C35_impl.h"

typedef void (*GemmFn)(const double*, int, int, const double*, int, int, double*, int, int, int, int);
typedef void (*GemvFn)(const double*, int, int, const double*, double*);
struct Gemm { int ra, ca, rb, cb; bool trans; int variant; GemmFn fn[3]; };
template <int RA, int CA, int RB, int CB, int OP, bool T, int V>
void CallGemm(const double* A, int ra, int ca, const double* B, int rb, int cb, double* C, int sr, int sc, int rs, int cs) {
  if constexpr (!T) {
    if constexpr (V == 0) MatrixMatrixMultiply<RA, CA, RB, CB, OP>(A, ra, ca, B, rb, cb, C, sr, sc, rs, cs);
    if constexpr (V == 1) MatrixMatrixMultiplyNaive<RA, CA, RB, CB, OP>(A, ra, ca, B, rb, cb, C, sr, sc, rs, cs);
    if constexpr (V == 2) MatrixMatrixMultiplyEigen<RA, CA, RB, CB, OP>(A, ra, ca, B, rb, cb, C, sr, sc, rs, cs);
  } else {
    if constexpr (V == 0) MatrixTransposeMatrixMultiply<RA, CA, RB, CB, OP>(A, ra, ca, B, rb, cb, C, sr, sc, rs, cs);
    if constexpr (V == 1) MatrixTransposeMatrixMultiplyNaive<RA, CA, RB, CB, OP>(A, ra, ca, B, rb, cb, C, sr, sc, rs, cs);
    if constexpr (V == 2) MatrixTransposeMatrixMultiplyEigen<RA, CA, RB, CB, OP>(A, ra, ca, B, rb, cb, C, sr, sc, rs, cs);
  }
}
template <int RA, int CA, int RB, int CB, bool T, int V> Gemm MakeGemm() {
  return {RA, CA, RB, CB, T, V,
          {CallGemm<RA, CA, RB, CB, -1, T, V>, CallGemm<RA, CA, RB, CB, 0, T, V>, CallGemm<RA, CA, RB, CB, 1, T, V>}};
}
// (rows of C, inner size, columns of C): the forms the library instantiates
// (block sizes of the Schur templates, fully static, partly dynamic).
template <int M, int K, int N> void Add(std::vector<Gemm>& v) {
  v.push_back(MakeGemm<M, K, K, N, false, 0>());
  v.push_back(MakeGemm<K, M, K, N, true, 0>());
}
static const std::vector<Gemm>& Gemms() {
  static const std::vector<Gemm> g = [] {
    std::vector<Gemm> v;
    Add<D, D, D>(v);
    Add<2, 3, 9>(v); Add<3, 2, 6>(v); Add<4, 4, 4>(v); Add<9, 3, 3>(v); Add<5, 7, 5>(v);
    v.push_back(MakeGemm<5, 6, 6, 7, false, 1>());
    v.push_back(MakeGemm<7, 6, 7, 9, true, 1>());
    Add<2, D, 3>(v); Add<D, 3, 9>(v); Add<9, 3, D>(v); Add<D, 2, D>(v); Add<3, D, D>(v); Add<D, D, 6>(v);
    Add<4, D, 8>(v); Add<D, 4, 4>(v); Add<D, D, 1>(v); Add<1, D, D>(v); Add<D, 1, D>(v); Add<D, D, 7>(v);
    // dimensions that agree at run time but of which one is dynamic
    v.push_back(MakeGemm<2, 3, D, 4, false, 0>());
    v.push_back(MakeGemm<2, D, 3, 4, false, 0>());
    v.push_back(MakeGemm<3, 2, D, 4, true, 0>());
    v.push_back(MakeGemm<D, 2, 3, 5, true, 0>());
    v.push_back(MakeGemm<D, D, D, D, false, 2>());
    v.push_back(MakeGemm<D, D, D, D, true, 2>());
    v.push_back(MakeGemm<2, 3, 3, 9, false, 2>());
    v.push_back(MakeGemm<2, 3, 2, 6, true, 2>());
    return v;
  }();
  return g;
}

PBT_PROP(gemm, 60000, 300000) {
  // Half of the cases use the fully dynamic kernels.
  const Gemm& g = c.coin() ? Gemms()[c.draw(Gemms().size() - 1)] : Gemms()[c.range(0, 1)];
  const int op = c.range(-1, 1);
  const int lim = c.thorough_ ? 40 : 18;
  int m = g.trans ? g.ca : g.ra, k = g.trans ? g.ra : g.ca, n = g.cb;
  if (k == D) k = g.rb;
  if (m == D) m = c.size(1, lim);
  if (k == D) k = c.size(1, lim);
  if (n == D) n = c.size(1, lim);
  const int sr = c.range(0, 5), sc = c.range(0, 5);
  const int rs = sr + m + c.range(0, 5), cs = sc + n + c.range(0, 5);
  Buf A(c, m * k, c.coin()), B(c, k * n, c.coin()), C(c, rs * cs, c.coin());
  // Regions the kernel must not touch: filled with a pattern.
  const std::vector<double> A0 = Vec(A), B0 = Vec(B);
  if (op == 0 && c.chance(1, 3))  // "=" must not depend on the old contents
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) C.p[(sr + i) * cs + sc + j] = std::numeric_limits<double>::quiet_NaN();
  const std::vector<double> C0 = Vec(C);
  const int ra = g.trans ? k : m, ca = g.trans ? m : k;
  c.note() << (g.trans ? "A'B" : "AB") << " variant " << g.variant << " static " << g.ra << "," << g.ca << "," << g.rb
           << "," << g.cb << " size " << m << "x" << k << "x" << n << " op " << op << " at (" << sr << "," << sc
           << ") of " << rs << "x" << cs;
  c.label(pbt::Str(g.trans ? "mtm" : "mm", g.ra != D && g.ca != D && g.rb != D && g.cb != D ? ":static"
                   : g.ra == D && g.ca == D && g.rb == D && g.cb == D ? ":dynamic" : ":mixed", ":op", op));
  c.nontrivial(m * k * n > 1);
  g.fn[op + 1](A.p, ra, ca, B.p, k, n, C.p, sr, sc, rs, cs);
  REQUIRE("inputs-kept", SameBits(A.p, A0.data(), A.n) && SameBits(B.p, B0.data(), B.n), "an operand was written");
  for (int i = 0; i < rs; ++i)
    for (int j = 0; j < cs; ++j) {
      const double got = C.p[i * cs + j], old = C0[i * cs + j];
      if (i < sr || i >= sr + m || j < sc || j >= sc + n) {
        REQUIRE("outside-block", std::memcmp(&got, &old, 8) == 0, "C(", i, ",", j, ") is outside of the block: ", old, " -> ", got);
        continue;
      }
      LD s = 0, a = 0;
      for (int l = 0; l < k; ++l) {
        const LD t = (LD)(g.trans ? A0[l * m + i - sr] : A0[(i - sr) * k + l]) * B0[l * n + j - sc];
        s += t;
        a += fabsl(t);
      }
      if (op != 0) { s = old + op * s; a += std::fabs(old); }
      REQUIRE("value", fabsl(got - s) <= 1e-15 * (k + 4) * a + 1e-300, "C(", i - sr, ",", j - sc, ")=", got, " want ", (double)s);
    }
}

template <int R, int C_, int OP, bool T> void CallGemv(const double* A, int r, int k, const double* b, double* x) {
  if constexpr (!T) MatrixVectorMultiply<R, C_, OP>(A, r, k, b, x);
  else MatrixTransposeVectorMultiply<R, C_, OP>(A, r, k, b, x);
}
struct Gemv { int r, k; bool trans; GemvFn fn[3]; };
template <int R, int K> void AddV(std::vector<Gemv>& v) {
  v.push_back({R, K, false, {CallGemv<R, K, -1, false>, CallGemv<R, K, 0, false>, CallGemv<R, K, 1, false>}});
  v.push_back({R, K, true, {CallGemv<R, K, -1, true>, CallGemv<R, K, 0, true>, CallGemv<R, K, 1, true>}});
}
static const std::vector<Gemv>& Gemvs() {
  static const std::vector<Gemv> g = [] {
    std::vector<Gemv> v;
    AddV<D, D>(v); AddV<2, 3>(v); AddV<2, 9>(v); AddV<4, 4>(v); AddV<6, 3>(v);
    AddV<1, 1>(v); AddV<8, 5>(v); AddV<5, 8>(v); AddV<D, 3>(v); AddV<D, 9>(v); AddV<2, D>(v); AddV<3, D>(v);
    AddV<9, 6>(v); AddV<D, 1>(v); AddV<1, D>(v); AddV<D, 4>(v);
    return v;
  }();
  return g;
}
PBT_PROP(gemv, 30000, 200000) {
  const Gemv& g = c.coin() ? Gemvs()[c.draw(Gemvs().size() - 1)] : Gemvs()[c.range(0, 1)];
  const int op = c.range(-1, 1), lim = c.thorough_ ? 60 : 22;
  const int r = g.r == D ? c.size(1, lim) : g.r, k = g.k == D ? c.size(1, lim) : g.k;
  const int nb = g.trans ? r : k, nx = g.trans ? k : r;
  Buf A(c, r * k, c.coin()), b(c, nb, c.coin()), x(c, nx, c.coin());
  const std::vector<double> A0 = Vec(A), b0 = Vec(b);
  if (op == 0 && c.coin()) for (int i = 0; i < nx; ++i) x.p[i] = std::numeric_limits<double>::infinity();
  const std::vector<double> x0 = Vec(x);
  c.note() << (g.trans ? "A'b " : "Ab ") << g.r << "," << g.k << " size " << r << "x" << k << " op " << op;
  c.label(pbt::Str(g.trans ? "mtv" : "mv", g.r == D && g.k == D ? ":dynamic" : g.r == D || g.k == D ? ":mixed" : ":static"));
  c.nontrivial(r * k > 1);
  g.fn[op + 1](A.p, r, k, b.p, x.p);
  REQUIRE("inputs-kept", SameBits(A.p, A0.data(), A.n) && SameBits(b.p, b0.data(), b.n), "an operand was written");
  for (int i = 0; i < nx; ++i) {
    LD s = 0, a = 0;
    for (int l = 0; l < nb; ++l) {
      const LD t = (LD)(g.trans ? A0[l * k + i] : A0[i * k + l]) * b0[l];
      s += t;
      a += fabsl(t);
    }
    if (op != 0) { s = x0[i] + op * s; a += std::fabs(x0[i]); }
    REQUIRE("value", fabsl(x.p[i] - s) <= 1e-15 * (nb + 4) * a + 1e-300, "c[", i, "]=", x.p[i], " want ", (double)s);
  }
}

