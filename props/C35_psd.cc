// C35: inversion of positive semi-definite matrices.
#include "C35_impl.h"

template <int N> void InvertCase(Case& c, int n) {
  typedef typename EigenTypes<N, N>::Matrix Mat;
  // Integer-ish eigenvalues with an exactly known null space.
  const int nulls = c.chance(1, 2) ? c.range(1, n) : 0;
  const LMat Q = Orthogonal(c, n);
  LVec s(n);
  const LD scale = c.pick({1.0, 1.0, 1e-6, 1e4});
  for (int i = 0; i < n; ++i) s(i) = i < nulls ? 0.0L : scale * c.logreal(1e-2, 1e2);
  LMat M = Q * s.asDiagonal() * Q.transpose();
  M = ((M + M.transpose()) / 2).eval();
  LVec inv(n);
  LD smin = 0, smax = 0;
  for (int i = 0; i < n; ++i) {
    inv(i) = s(i) == 0 ? 0.0L : 1 / s(i);
    smax = std::max(smax, s(i));
    if (s(i) != 0 && (smin == 0 || s(i) < smin)) smin = s(i);
  }
  const LMat P = Q * inv.asDiagonal() * Q.transpose();
  const Mat m = M.template cast<double>();
  const bool full = nulls == 0 && c.coin();
  c.note() << "InvertPSDMatrix<" << N << ">(" << (full ? "full" : "general") << ") n=" << n << " nullity " << nulls << " scale "
           << (double)scale;
  c.label(pbt::Str("n", N, full ? ":full" : nulls ? ":deficient" : ":svd"));
  c.nontrivial(n > 1);
  const Mat r = InvertPSDMatrix<N>(full, m);
  REQUIRE("shape", r.rows() == n && r.cols() == n, r.rows(), "x", r.cols());
  const LD kappa = smin > 0 ? smax / smin : 1;
  const LD tol = 1e-13L * kappa * n * (smin > 0 ? 1 / smin : 1);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      REQUIRE("pseudo-inverse", fabsl((LD)r(i, j) - P(i, j)) <= tol, "(", i, ",", j, ") ", r(i, j), " want ", (double)P(i, j),
              " tol ", (double)tol);
}
PBT_PROP(invert_psd, 15000, 40000) {
  switch (c.range(0, 6)) {
    case 0: InvertCase<1>(c, 1); break;
    case 1: InvertCase<2>(c, 2); break;
    case 2: InvertCase<3>(c, 3); break;
    case 3: InvertCase<4>(c, 4); break;
    case 4: InvertCase<5>(c, 5); break;
    case 5: InvertCase<9>(c, 9); break;
    default: InvertCase<D>(c, c.size(1, 15));
  }
}

