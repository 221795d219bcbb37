// C16: covariances are the inverse of the normal matrix.
// pbt-build: flavor=rel
#include <Eigen/SVD>
#include <Eigen/SparseQR>
#include <algorithm>
#include <set>

#include "eval_model.h"

using namespace pg;
using ceres::Covariance;
using MatL = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;

// What Covariance has to return at the current state, in the tangent space of
// the active blocks (those that vary and occur in a residual).
struct Reference {
  std::vector<int> start;   // per block, -1 when it cannot vary
  int n = 0, m = 0;
  MatL u, v;
  std::vector<long double> sigma;  // n values, decreasing
  Mat jac;
};

static Reference MakeReference(const Spec& s, const std::vector<Vec>& x, bool apply_loss) {
  Reference r;
  const int nb = s.blocks.size();
  std::vector<bool> used(nb, false);
  std::vector<int> all_res, active;
  for (size_t i = 0; i < s.res.size(); ++i) { all_res.push_back(i); for (int b : s.res[i].blocks) used[b] = true; }
  r.start.assign(nb, -1);
  for (int b = 0; b < nb; ++b)
    if (used[b] && !s.blocks[b].constant && s.blocks[b].tangent() > 0) { active.push_back(b); r.start[b] = r.n; r.n += s.blocks[b].tangent(); }
  const DenseEval e = Model(s, x, all_res, active, apply_loss);
  r.jac = e.jacobian;
  r.m = r.jac.rows();
  r.sigma.assign(r.n, 0);
  if (r.n == 0) return r;
  // Padding with zero rows gives all n right singular vectors.
  MatL j = MatL::Zero(std::max(r.m, r.n), r.n);
  j.topRows(r.m) = r.jac.cast<long double>();
  Eigen::JacobiSVD<MatL> svd(j, Eigen::ComputeThinU | Eigen::ComputeThinV);
  for (int i = 0; i < r.n; ++i) r.sigma[i] = svd.singularValues()(i);
  r.v = svd.matrixV();
  return r;
}

// (Pseudo) inverse of the normal matrix from the leading `rank` terms.
static Mat Inverse(const Reference& r, int rank) {
  MatL c = MatL::Zero(r.n, r.n);
  for (int i = 0; i < rank; ++i) c += r.v.col(i) * r.v.col(i).transpose() / (r.sigma[i] * r.sigma[i]);
  return c.cast<double>();
}
static double Tolerance(const Reference& r, int rank) {
  if (rank == 0) return 0;
  const double s1 = r.sigma[0], sr = r.sigma[rank - 1];
  double t = 4 / sr;
  if (rank < r.n) t += 4 / (sr - (double)r.sigma[rank]);
  return 4e-15 * (10 + r.n) * s1 * t / (sr * sr);
}

struct Guarded {
  std::vector<double> v;
  int n;
  static constexpr int kPad = 5;
  explicit Guarded(int n) : v(n + 2 * kPad, NAN), n(n) {}
  double* data() { return v.data() + kPad; }
  bool Intact() const {
    for (int i = 0; i < kPad; ++i) if (!std::isnan(v[i]) || !std::isnan(v[n + kPad + i])) return false;
    return true;
  }
};

enum Verdict { kMustSucceed, kMustFail, kEither };
static const char* kVerdict[] = {"succeed", "fail", "either"};

struct Expect { Verdict verdict = kMustSucceed; int rank = 0; bool values = true; };

static Expect Expected(pbt::Case& c, const Covariance::Options& o, const Reference& r, const Spec& s, Instance& in) {
  Expect e;
  if (r.n == 0) return e;
  const double s1 = r.sigma[0];
  const double band = 1e-12;
  auto ratio = [&](int i) { return s1 > 0 ? (double)(r.sigma[i] / s1) : 0.0; };
  if (o.algorithm_type == ceres::SPARSE_QR) {
    e.rank = r.n;
    if (r.m < r.n || s1 == 0) { e.verdict = kMustFail; return e; }
    if (ratio(r.n - 1) > 1e-6) return e;
    if (ratio(r.n - 1) > 1e-17 * r.n * 50) { e.verdict = kEither; e.values = false; return e; }
    e.verdict = kMustFail;
    // Eigen's sparse QR misjudges about one rank deficient matrix in a million;
    // skip those, by running it on the same matrix.
    std::vector<std::pair<double*, int>> order;
    for (size_t b = 0; b < s.blocks.size(); ++b) if (r.start[b] >= 0) order.push_back({in.x[b].get(), (int)b});
    std::sort(order.begin(), order.end());
    ceres::Problem::EvaluateOptions eo;
    eo.apply_loss_function = o.apply_loss_function;
    for (auto& p : order) eo.parameter_blocks.push_back(p.first);
    ceres::CRSMatrix j;
    REQUIRE("evaluate", in.problem->Evaluate(eo, nullptr, nullptr, nullptr, &j), "");
    Eigen::SparseMatrix<double> sj = Dense(c, j).sparseView(0, 0);
    {
      std::vector<Eigen::Triplet<double>> t;
      for (int a = 0; a < j.num_rows; ++a) for (int k = j.rows[a]; k < j.rows[a + 1]; ++k) t.push_back({a, j.cols[k], j.values[k]});
      sj.setFromTriplets(t.begin(), t.end());
    }
    Eigen::SparseQR<Eigen::SparseMatrix<double>, Eigen::COLAMDOrdering<int>> qr;
    if (o.column_pivot_threshold > 0) qr.setPivotThreshold(o.column_pivot_threshold);
    qr.compute(sj);
    if (qr.info() == Eigen::Success && qr.rank() >= r.n) { e.verdict = kEither; e.values = false; c.label("sparse QR misjudged the rank"); }
    return e;
  }
  const double thr = std::sqrt(o.min_reciprocal_condition_number);
  if (o.null_space_rank < 0) {
    int k = 0;
    while (k < r.n && ratio(k) > 0 && ratio(k) >= thr) ++k;
    e.rank = k;
    for (int i = 0; i < r.n; ++i) if (std::fabs(ratio(i) - thr) < band + 1e-9 * thr && !(thr > band && ratio(i) < 1e-15)) e.values = false;
    if (s1 == 0) e.values = true;
  } else {
    e.rank = std::max(0, r.n - o.null_space_rank);
    for (int i = 0; i < e.rank; ++i) {
      if (s1 == 0) { e.verdict = kMustFail; return e; }
      if (std::fabs(ratio(i) - thr) < band + 1e-9 * thr) { e.verdict = kEither; e.values = false; return e; }
      if (ratio(i) < thr) { e.verdict = kMustFail; return e; }
    }
  }
  // Too close a gap at the truncation: the subspace is not well determined.
  if (e.rank > 0 && e.rank < r.n && (r.sigma[e.rank - 1] - r.sigma[e.rank]) < 1e-6 * s1) e.values = false;
  return e;
}

static Covariance::Options GenOptions16(pbt::Case& c, bool deficient) {
  Covariance::Options o;
  o.algorithm_type = c.coin() ? ceres::DENSE_SVD : ceres::SPARSE_QR;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.num_threads = c.pick({1, 1, 2, 4, 3});
  o.apply_loss_function = c.coin();
  o.null_space_rank = c.pick({0, 0, -1, 1, 2});
  if (!deficient && c.coin()) o.null_space_rank = 0;
  o.min_reciprocal_condition_number = c.pick({1e-14, 1e-14, 1e-8, 1e-4, 1e-20});
  if (c.chance(1, 4)) o.column_pivot_threshold = c.pick({1e-13, 1e-15});
  c.note() << (o.algorithm_type == ceres::DENSE_SVD ? " SVD" : " QR") << " thr=" << o.num_threads << " loss=" << o.apply_loss_function
           << " null=" << o.null_space_rank << " rcond=" << o.min_reciprocal_condition_number << " piv=" << o.column_pivot_threshold;
  return o;
}

struct Checker {
  pbt::Case& c;
  Spec& s;      // kept in step with the problem's constness and manifolds
  Instance& in;
  int Size(int b) const { return s.blocks[b].size; }
  int Tangent(int b) const { return s.blocks[b].tangent(); }

  Mat Want(const Reference& r, const Mat& inv, int a, int b, bool ambient, const std::vector<Vec>& x) const {
    Mat t = Mat::Zero(Tangent(a), Tangent(b));
    if (r.start[a] >= 0 && r.start[b] >= 0) t = inv.block(r.start[a], r.start[b], Tangent(a), Tangent(b));
    if (!ambient) return t;
    return PlusJacobianOf(s.blocks[a], x[a]) * t * PlusJacobianOf(s.blocks[b], x[b]).transpose();
  }

  void Compare(const char* tag, const Mat& want, const double* got, double tol, const std::string& what) {
    for (int i = 0; i < want.rows(); ++i)
      for (int k = 0; k < want.cols(); ++k) {
        const double g = got[i * want.cols() + k];
        REQUIRE(tag, std::fabs(g - want(i, k)) <= tol, what, " (", i, ",", k, "): ", g, " want ", want(i, k), " tolerance ", tol);
      }
  }

  void Run(Covariance& cov, const Covariance::Options& o) {
    const std::vector<Vec> x = in.Values();
    const Reference r = MakeReference(s, x, o.apply_loss_function);
    const Expect e = Expected(c, o, r, s, in);
    const Mat inv = e.values && e.verdict == kMustSucceed ? Inverse(r, e.rank) : Mat();
    double lift = 1;
    for (size_t b = 0; b < s.blocks.size(); ++b) {
      const Mat p = PlusJacobianOf(s.blocks[b], x[b]);
      if (p.size()) lift = std::max(lift, p.cwiseAbs().rowwise().sum().maxCoeff());
    }
    const double tol = e.values && e.verdict == kMustSucceed ? Tolerance(r, e.rank) : 0;
    const double scale = inv.size() ? inv.cwiseAbs().maxCoeff() : 0;
    const bool compare = e.values && e.verdict == kMustSucceed && tol < 1e-3 * scale + 1e-300;
    const int nb = s.blocks.size();
    const bool lists = c.coin();
    std::vector<int> listed;
    std::set<std::pair<int, int>> requested;
    std::vector<std::pair<const double*, const double*>> pairs;
    std::vector<const double*> ptrs;
    bool ok;
    bool nonzero = false;
    if (lists) {
      for (int b : c.permutation(nb)) if (listed.empty() || c.coin()) { listed.push_back(b); ptrs.push_back(in.x[b].get()); }
      if (c.chance(1, 30)) { listed.clear(); ptrs.clear(); }
      for (int a : listed) for (int b : listed) { requested.insert({a, b}); nonzero |= r.start[a] >= 0 && r.start[b] >= 0; }
      ok = cov.Compute(ptrs, in.problem.get());
    } else {
      for (int k = c.range(0, 6); k > 0; --k) {
        const int a = c.range(0, nb - 1), b = c.range(0, nb - 1);
        if (std::find(pairs.begin(), pairs.end(), std::make_pair((const double*)in.x[a].get(), (const double*)in.x[b].get())) != pairs.end()) continue;
        pairs.push_back({in.x[a].get(), in.x[b].get()});
        requested.insert({a, b});
        requested.insert({b, a});
        nonzero |= r.start[a] >= 0 && r.start[b] >= 0;
      }
      ok = cov.Compute(pairs, in.problem.get());
    }
    REQUIRE("values-touched", SameBits(x, in.Values()), "");
    c.note() << (lists ? " list" : " pairs") << requested.size() << " m=" << r.m << " n=" << r.n;
    // When every requested block is zero nothing needs to be factorised.
    Verdict v = nonzero ? e.verdict : kMustSucceed;
    REQUIRE("verdict", v == kEither || ok == (v == kMustSucceed), "Compute returned ", ok, ", must ", kVerdict[v], "; m ", r.m, " n ", r.n, " ratio ",
            r.n ? (double)(r.sigma[r.n - 1] / r.sigma[0]) : 1.0, " rank ", e.rank);
    c.label(pbt::Str(o.algorithm_type == ceres::DENSE_SVD ? "svd" : "qr", ok ? " computed" : " refused", v == kEither ? " (either)" : ""));
    if (v == kMustFail) c.nontrivial();
    if (!ok) return;
    c.nontrivial(nonzero && compare);
    for (int a = 0; a < nb; ++a)
      for (int b = 0; b < nb; ++b) {
        if (!c.coin()) continue;
        const bool zero = r.start[a] < 0 || r.start[b] < 0;
        for (int ambient = 0; ambient < 2; ++ambient) {
          const int rows = ambient ? Size(a) : Tangent(a), cols = ambient ? Size(b) : Tangent(b);
          Guarded g(rows * cols);
          if (!nonzero && !zero) continue;  // nothing was computed
          const bool got = ambient ? cov.GetCovarianceBlock(in.x[a].get(), in.x[b].get(), g.data())
                                   : cov.GetCovarianceBlockInTangentSpace(in.x[a].get(), in.x[b].get(), g.data());
          REQUIRE("guard", g.Intact(), a, " ", b);
          if (!zero && !requested.count({a, b})) { REQUIRE("unrequested", !got, a, " ", b); continue; }
          REQUIRE("block-missing", got, a, " ", b, " ambient ", ambient);
          if (zero) { for (int k = 0; k < rows * cols; ++k) REQUIRE("constant-zero", g.data()[k] == 0, a, " ", b); continue; }
          if (compare) Compare(ambient ? "ambient-block" : "tangent-block", Want(r, inv, a, b, ambient, x), g.data(),
                               (tol + 1e-15 * scale) * (ambient ? lift * lift : 1), pbt::Str("block ", a, ",", b));
          // Swapping the pair transposes the block.
          Guarded h(rows * cols);
          REQUIRE("swapped", ambient ? cov.GetCovarianceBlock(in.x[b].get(), in.x[a].get(), h.data())
                                     : cov.GetCovarianceBlockInTangentSpace(in.x[b].get(), in.x[a].get(), h.data()), "");
          double big = 0;
          for (int k = 0; k < rows * cols; ++k) big = std::max(big, std::fabs(g.data()[k]));
          for (int i = 0; i < rows; ++i) for (int k = 0; k < cols; ++k)
            if (compare && a != b) REQUIRE("transpose", std::fabs(g.data()[i * cols + k] - h.data()[k * rows + i]) <= 1e-14 * big + 1e-300, a, " ", b);
        }
      }
    if (lists && !listed.empty() && (nonzero || r.n == 0)) {
      // Any sub-list, in any order.
      std::vector<int> sub;
      for (int k : c.permutation(listed.size())) if (sub.empty() || c.coin()) sub.push_back(listed[k]);
      std::vector<const double*> p;
      int n[2] = {0, 0};
      for (int b : sub) { p.push_back(in.x[b].get()); n[0] += Tangent(b); n[1] += Size(b); }
      for (int ambient = 0; ambient < 2; ++ambient) {
        Guarded g(n[ambient] * n[ambient]);
        REQUIRE("matrix", ambient ? cov.GetCovarianceMatrix(p, g.data()) : cov.GetCovarianceMatrixInTangentSpace(p, g.data()), "");
        REQUIRE("matrix-guard", g.Intact(), "");
        if (!compare) continue;
        Mat want = Mat::Zero(n[ambient], n[ambient]);
        int i = 0;
        for (int a : sub) {
          int k = 0;
          for (int b : sub) {
            const Mat w = Want(r, inv, a, b, ambient, x);
            if (w.size()) want.block(i, k, w.rows(), w.cols()) = w;
            k += w.cols();
          }
          i += ambient ? Size(a) : Tangent(a);
        }
        Compare(ambient ? "ambient-matrix" : "tangent-matrix", want, g.data(), (tol + 1e-15 * scale) * (ambient ? lift * lift : 1), "matrix");
        for (int a = 0; a < n[ambient]; ++a) {
          REQUIRE("variance-negative", g.data()[a * n[ambient] + a] >= -tol * lift * lift, a);
          for (int b = 0; b < a; ++b) REQUIRE("symmetry", std::fabs(g.data()[a * n[ambient] + b] - g.data()[b * n[ambient] + a]) <= 1e-13 * (scale * lift * lift) + 2 * tol * lift * lift, a, " ", b);
        }
      }
    }
  }
};

static void Session(pbt::Case& c, Spec s, bool deficient) {
  Instance in(s);
  Checker k{c, s, in};
  c.note() << s.Str() << " seed=" << s.address_seed;
  const Covariance::Options o = GenOptions16(c, deficient);
  Covariance cov(o);
  k.Run(cov, o);
  // The same object computes afresh after the problem changed.
  for (int round = c.range(0, 2); round > 0; --round) {
    const int b = c.range(0, s.blocks.size() - 1);
    switch (c.range(0, 2)) {
      case 0:
        s.blocks[b].constant = !s.blocks[b].constant;
        if (s.blocks[b].constant) in.problem->SetParameterBlockConstant(in.x[b].get());
        else in.problem->SetParameterBlockVariable(in.x[b].get());
        c.note() << " toggle" << b;
        break;
      case 1:
        if (s.blocks[b].mani.linear()) {
          s.blocks[b].mani = ManiSpec();
          in.problem->SetManifold(in.x[b].get(), nullptr);
          c.note() << " plain" << b;
        }
        break;
      case 2:
        if (s.blocks[b].mani.linear()) for (int q = 0; q < s.blocks[b].size; ++q) in.x[b][q] += c.sym(0.5);
        c.note() << " move" << b;
        break;
    }
    k.Run(cov, o);
  }
}

// Well determined problems.
PBT_PROP(inverse, 40000, 1500000) {
  GenOptions g;
  g.full_rank = true;
  g.max_blocks = 7;
  g.max_size = c.pick({3, 6, 4});
  Session(c, Gen(c, g), false);
}
// Anything, mostly singular.
PBT_PROP(deficient, 40000, 1500000) {
  GenOptions g;
  g.max_blocks = 6;
  g.nonlinear = c.coin();
  Spec s = Gen(c, g);
  // Blocks that only occur in products with zero, repeated residuals.
  if (c.chance(1, 6)) for (auto& r : s.res) if (!r.use_expr && c.chance(1, 3)) r.a.setZero();
  Session(c, s, true);
}
// Larger structured Jacobians with repeated singular values.
PBT_PROP(structured, 3000, 100000) {
  GenOptions g;
  g.bipartite = 1;
  g.max_blocks = 14;
  g.max_res = 20;
  g.nonlinear = c.coin();
  g.losses = false;
  g.full_rank = c.coin();
  Session(c, Gen(c, g), !g.full_rank);
}

PBT_MAIN("C16", "a covariance with at least one varying requested block was compared with the dense inverse, or a rank deficient problem had to be refused")
