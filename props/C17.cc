// C17: every linear solver returns the regularised least squares solution.
// pbt-build: flavor=asan
// pbt-build: extra=C17_oracle.cc:-fno-sanitize=all
#include <cstring>

#include "C17_oracle.h"
#include "block_gen.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/conjugate_gradients_solver.h"
#include "ceres/context_impl.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/linear_solver.h"
#include "pbt.h"

using namespace ceres;
using namespace ceres::internal;
using pbt::Case;

namespace {

ContextImpl* Ctx() {
  static ContextImpl* ctx = [] { auto* c = new ContextImpl; c->EnsureMinimumThreads(4); return c; }();
  return ctx;
}

struct Config {
  LinearSolver::Options o;
  bool iterative = false, mixed = false;
  std::string Str() const {
    std::string s = LinearSolverTypeToString(o.type);
    if (iterative) s += std::string(" ") + PreconditionerTypeToString(o.preconditioner_type);
    if (o.dynamic_sparsity) s += " dynamic";
    if (o.use_explicit_schur_complement) s += " explicit";
    if (o.use_spse_initialization) s += pbt::Str(" spse-init", o.max_num_spse_iterations);
    if (mixed) s += " mixed";
    s += pbt::Str(" refine", o.max_num_refinement_iterations, " threads", o.num_threads, " order", (int)o.ordering_type);
    if (o.preconditioner_type == SUBSET) s += pbt::Str(" subset@", o.subset_preconditioner_start_row_block);
    return s;
  }
};

Config GenConfig(Case& c, const bg::Spec& s) {
  Config k;
  LinearSolver::Options& o = k.o;
  std::vector<LinearSolverType> types = {DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, CGNR};
  if (s.num_e > 0) types.insert(types.end(), {DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR});
  o.type = types[c.range(0, (int)types.size() - 1)];
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.dense_linear_algebra_library_type = EIGEN;
  o.ordering_type = c.coin() ? OrderingType::AMD : OrderingType::NATURAL;
  o.num_threads = c.range(1, 4);
  o.context = Ctx();
  o.elimination_groups = {s.num_e, (int)s.cols.size() - s.num_e};
  const bool have_f = s.num_e < (int)s.cols.size();
  o.preconditioner_type = IDENTITY;
  k.iterative = o.type == CGNR || o.type == ITERATIVE_SCHUR;
  if (k.iterative) {
    o.min_num_iterations = c.pick({0, 1, 5});
    o.max_num_iterations = 1000;
    o.residual_reset_period = o.min_num_iterations > 1 ? 10 : c.pick({10, 1, 3, 50});
    if (o.type == CGNR) {
      o.preconditioner_type = c.pick({JACOBI, IDENTITY, SUBSET});
      if (o.preconditioner_type == SUBSET) o.subset_preconditioner_start_row_block = c.range(0, (int)s.rows.size() - 1);
    } else {
      o.use_explicit_schur_complement = c.chance(1, 3);
      o.max_num_spse_iterations = c.pick({5, 1, 3});
      o.spse_tolerance = c.pick({0.1, 1e-3, 0.9});
      if (o.use_explicit_schur_complement) {
        o.preconditioner_type = SCHUR_JACOBI;
      } else {
        o.use_spse_initialization = c.chance(1, 3);
        o.preconditioner_type = c.pick({JACOBI, IDENTITY, SCHUR_JACOBI, SCHUR_POWER_SERIES_EXPANSION, CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL});
        o.visibility_clustering_type = c.coin() ? CANONICAL_VIEWS : SINGLE_LINKAGE;
      }
    }
  } else {
    o.dynamic_sparsity = o.type == SPARSE_NORMAL_CHOLESKY && c.chance(1, 3);
    if (o.type != DENSE_QR && !o.dynamic_sparsity) {
      k.mixed = o.use_mixed_precision_solves = c.chance(1, 4);
      o.max_num_refinement_iterations = c.chance(1, 2) ? 0 : c.range(1, 4);
    }
  }
  (void)have_f;
  return k;
}

struct Result {
  LinearSolver::Summary summary;
  Vector x;
};

// Holds one solver and the matrix in the representation it wants; rounds with
// new values keep both.
class Rig {
 public:
  Rig(const Config& k, const bg::Spec& s, const Matrix& dense) : k_(k) {
    solver_ = LinearSolver::Create(k.o);
    block_ = bg::Build(s, dense);
    if (k.o.type == ITERATIVE_SCHUR || k.o.num_threads > 1) block_->AddTransposeBlockStructure();
    if (k.o.type == DENSE_NORMAL_CHOLESKY || k.o.type == DENSE_QR) {
      dense_ = std::make_unique<DenseSparseMatrix>(dense.rows(), dense.cols());
      a_ = dense_.get();
    } else if (k.o.dynamic_sparsity) {
      crs_ = block_->ToCompressedRowSparseMatrix();
      a_ = crs_.get();
    } else {
      a_ = block_.get();
    }
  }
  // style: 0 x is garbage, 1 x is NaN, 2 x is zero
  Result Solve(Case& c, const Matrix& dense, const Vector& b, const Vector* D, int style, double r_tolerance = 0, double q_tolerance = -HUGE_VAL) {
    bg::Fill(dense, block_.get());
    if (crs_) block_->UpdateCompressedRowSparseMatrix(crs_.get());
    if (dense_) std::copy(dense.data(), dense.data() + dense.size(), dense_->mutable_values());
    LinearSolver::PerSolveOptions po;
    Vector d = D ? *D : Vector(Vector::Constant(dense.cols(), -7.0));
    if (D) po.D = d.data();
    if (k_.iterative) { po.r_tolerance = r_tolerance; po.q_tolerance = q_tolerance; }
    Vector bb = b;
    Result r;
    r.x = Vector::Constant(dense.cols(), style == 0 ? 1.2345e3 : style == 1 ? NAN : 0.0);
    const Vector before = Eigen::Map<const Vector>(Values(), a_->num_nonzeros());
    const int nr = a_->num_rows(), nc = a_->num_cols(), nz = a_->num_nonzeros();
    r.summary = solver_->Solve(a_, bb.data(), po, r.x.data());
    REQUIRE("matrix-shape-kept", a_->num_rows() == nr && a_->num_cols() == nc && a_->num_nonzeros() == nz, a_->num_rows(), "x", a_->num_cols());
    REQUIRE("matrix-kept", std::memcmp(before.data(), Values(), nz * sizeof(double)) == 0, "");
    REQUIRE("rhs-kept", bb == b, "");
    if (D) REQUIRE("diagonal-kept", d == *D, "");
    // The structure still describes the same matrix.
    Matrix now;
    a_->ToDenseMatrix(&now);
    REQUIRE("structure-kept", now == dense, "");
    Vector y = Vector::Zero(nc), w = dense.transpose() * b;
    a_->LeftMultiplyAndAccumulate(b.data(), y.data());
    REQUIRE("structure-kept", (y - w).lpNorm<Eigen::Infinity>() <= 1e-12 * (1 + w.lpNorm<Eigen::Infinity>() + dense.lpNorm<1>() * b.lpNorm<Eigen::Infinity>()), "transposed product");
    if (block_->transpose_block_structure() && a_ == block_.get()) {
      const auto* t = block_->transpose_block_structure();
      REQUIRE("structure-kept", t->rows.size() == block_->block_structure()->cols.size() && t->cols.size() == block_->block_structure()->rows.size(), "transpose structure");
    }
    return r;
  }

 private:
  const double* Values() const { return a_->values(); }
  Config k_;
  std::unique_ptr<LinearSolver> solver_;
  std::unique_ptr<BlockSparseMatrix> block_;
  std::unique_ptr<DenseSparseMatrix> dense_;
  std::unique_ptr<CompressedRowSparseMatrix> crs_;
  SparseMatrix* a_ = nullptr;
};

bg::Spec GenSpec(Case& c, bool determined) {
  bg::Options o;
  o.max_cols = 7;
  o.max_rows = 14;
  o.schur = !c.chance(1, 5);
  o.common_sizes = c.coin();
  o.determined = determined;
  o.allow_zero_f_only = !c.chance(1, 4);
  bg::Spec s = bg::Gen(c, o);
  if (!o.schur) s.num_e = 0, s.split = false;
  return s;
}

const char* Name(LinearSolverTerminationType t) {
  switch (t) {
    case LinearSolverTerminationType::SUCCESS: return "SUCCESS";
    case LinearSolverTerminationType::NO_CONVERGENCE: return "NO_CONVERGENCE";
    case LinearSolverTerminationType::FAILURE: return "FAILURE";
    default: return "FATAL_ERROR";
  }
}

// The smallest relative residual that can be reached depends on the conditioning.
double Tolerance(double kappa) { return std::max(1e-11, 1e3 * 2.3e-16 * kappa * kappa); }

void Check(Case& c, const Config& k, const Matrix& A, const Vector& b, const Vector* D, double kappa, double smin, const Result& r, const std::string& where) {
  Vector want(A.cols());
  LeastSquares(A.data(), A.rows(), A.cols(), b.data(), D ? D->data() : nullptr, want.data());
  // Asked for more iterations than the problem needs, conjugate gradients may
  // run into a direction that is zero and say so.
  const bool stalled = k.iterative && k.o.min_num_iterations > 1 && r.summary.termination_type == LinearSolverTerminationType::NO_CONVERGENCE;
  REQUIRE("success", stalled || r.summary.termination_type == LinearSolverTerminationType::SUCCESS, Name(r.summary.termination_type), " '", r.summary.message, "' ", where, " kappa ", kappa);
  const double eps = 2.3e-16;
  const double size = want.norm() + b.norm() / smin;
  double rel;
  if (k.iterative) {
    rel = Tolerance(kappa) * kappa * kappa * kappa * 10 + 1e3 * eps * kappa * kappa;
  } else if (k.mixed) {
    // Every refinement contracts the error by the accuracy of the single
    // precision factorisation.
    const double one = std::min(1.0, 1e3 * 1.2e-7 * kappa * kappa);
    rel = one;
    for (int i = 0; i < k.o.max_num_refinement_iterations; ++i) rel *= one;
    rel = std::max(rel, 1e3 * eps * kappa * kappa);
  } else {
    rel = 1e3 * eps * (k.o.type == DENSE_QR ? 1 + kappa : kappa * kappa);
  }
  // Elimination loses digits twice: when the eliminated blocks are inverted,
  // and when the result is subtracted.
  const bool schur = k.o.type == DENSE_SCHUR || k.o.type == SPARSE_SCHUR || k.o.type == ITERATIVE_SCHUR;
  if (schur) rel += 1e2 * eps * kappa * kappa * kappa * kappa;
  const double err = (r.x - want).norm();
  REQUIRE("solution", err <= rel * size, "error ", err, " solution ", want.norm(), " allowed ", rel * size, " kappa ", kappa, " ", where, " '", r.summary.message, "' got ", r.x.transpose(), " want ", want.transpose());
}

void Run(Case& c) {
  const bool with_d = c.coin();
  bg::Spec s = GenSpec(c, !with_d || c.coin());
  Config k = GenConfig(c, s);
  const int n = s.num_cols(), m = s.num_rows();
  c.note() << s.Describe() << " | " << k.Str();
  const int rounds = c.range(1, 3);
  std::unique_ptr<Rig> rig;
  for (int round = 0; round < rounds; ++round) {
    bg::Spec t = s;
    t.seed = s.seed + round * 7919;
    if (round) t.style = c.pick({0, 1, 2});
    const Matrix A = bg::Dense(t);
    const bool use_d = with_d;
    Vector D(n);
    const double dscale = c.pick({1.0, 0.1, 10.0});
    for (int i = 0; i < n; ++i) D(i) = dscale * (1.2 + bg::Noise(t.seed, i, 3));
    Vector b = bg::NoiseVector(t.seed, m, 5, c.pick({1.0, 100.0}));
    if (c.chance(1, 10)) b.setZero();
    const Vector* dp = use_d ? &D : nullptr;
    double smin = 0, smax = 0;
    const double kappa = ConditionNumber(A.data(), m, n, use_d ? D.data() : nullptr, &smin, &smax);
    const double limit = k.iterative ? 100 : k.mixed ? 300 : k.o.type == DENSE_SCHUR || k.o.type == SPARSE_SCHUR ? 1e3 : 1e4;
    if (!(kappa < limit)) { if (round == 0) c.discard(); continue; }
    if (k.iterative && k.o.preconditioner_type == SUBSET) {
      int r0 = 0;
      for (int i = 0; i < k.o.subset_preconditioner_start_row_block; ++i) r0 += s.rows[i].size;
      const Matrix sub = A.bottomRows(m - r0);
      if (!(ConditionNumber(sub.data(), sub.rows(), n, use_d ? D.data() : nullptr) < 300)) { if (round == 0) c.discard(); continue; }
    }
    if (!rig) rig = std::make_unique<Rig>(k, s, A);
    const Result r = rig->Solve(c, A, b, dp, c.range(0, 2), Tolerance(kappa));
    Check(c, k, A, b, dp, kappa, smin, r, pbt::Str("round ", round, use_d ? " with D" : ""));
    c.nontrivial(n > 1 && b.squaredNorm() > 0);
  }
  c.label(LinearSolverTypeToString(k.o.type));
  if (k.iterative) c.label(PreconditionerTypeToString(k.o.preconditioner_type));
  if (rounds > 1) c.label("several rounds");
}

// A column of zeros without regularisation: no solver may present an ordinary
// looking answer.
void Singular(Case& c) {
  bg::Spec s = GenSpec(c, true);
  Config k = GenConfig(c, s);
  if (k.iterative) c.discard();
  Matrix A = bg::Dense(s);
  const int col = c.range(0, (int)A.cols() - 1);
  A.col(col).setZero();
  const Vector b = bg::NoiseVector(s.seed, A.rows(), 5);
  c.note() << s.Describe() << " | " << k.Str() << " zero column " << col;
  // Nothing else is wrong with the matrix.
  if (A.rows() < A.cols() || A.cols() < 2) c.discard();
  Matrix rest(A.rows(), A.cols() - 1);
  rest << A.leftCols(col), A.rightCols(A.cols() - 1 - col);
  if (!(ConditionNumber(rest.data(), rest.rows(), rest.cols(), nullptr) < 1e4)) c.discard();
  Rig rig(k, s, A);
  const Result r = rig.Solve(c, A, b, nullptr, c.range(0, 2));
  const bool said_so = r.summary.termination_type != LinearSolverTerminationType::SUCCESS;
  // One of the solutions is a fair answer.
  const bool a_solution = r.x.allFinite() && (A.transpose() * (A * r.x - b)).norm() <= 1e-6 * A.norm() * b.norm();
  if (!said_so && a_solution) c.label("one of the solutions");
  REQUIRE("singular-noticed", said_so || a_solution || !r.x.allFinite(), "SUCCESS with a finite solution, component ", r.x(col));
  c.label(said_so ? "reported" : "not finite");
  c.nontrivial();
  // The solver recovers with a regular system.
  const Matrix B = bg::Dense(s);
  double smin = 0;
  const double kappa = ConditionNumber(B.data(), B.rows(), B.cols(), nullptr, &smin);
  if (!(kappa < 300)) return;
  const Result q = rig.Solve(c, B, b, nullptr, c.range(0, 2));
  Check(c, k, B, b, nullptr, kappa, smin, q, "after a singular system");
  c.label("recovered");
}

// Truncated solves, as the minimiser asks for them: terminated by the relative progress of the quadratic model alone.
// One iteration of (preconditioned) conjugate gradients makes at least 1/kappa of the progress that is left, so
// stopping at a relative progress of tol leaves an error of at most 2 * kappa(M^-1 A) * tol * |Q|.
void Truncated(Case& c) {
  const bool with_d = c.coin();
  bg::Spec s = GenSpec(c, !with_d || c.coin());
  Config k = GenConfig(c, s);
  if (!k.iterative) c.discard();
  if (k.o.preconditioner_type == SUBSET) k.o.preconditioner_type = JACOBI;
  k.o.min_num_iterations = c.pick({0, 1});
  const double tol = c.pick({1e-10, 1e-7, 1e-5, 1e-3});
  c.note() << s.Describe() << " | " << k.Str() << " q_tolerance " << tol;
  std::unique_ptr<Rig> rig;
  const int rounds = c.range(1, 2);
  for (int round = 0; round < rounds; ++round) {
    bg::Spec t = s;
    t.seed = s.seed + round * 7919;
    const Matrix A = bg::Dense(t);
    const int n = A.cols(), m = A.rows();
    Vector D(n);
    const double dscale = c.pick({1.0, 0.1, 10.0});
    for (int i = 0; i < n; ++i) D(i) = dscale * (1.2 + bg::Noise(t.seed, i, 3));
    const Vector b = bg::NoiseVector(t.seed, m, 5, c.pick({1.0, 100.0}));
    double smin = 0, smax = 0;
    const double kappa = ConditionNumber(A.data(), m, n, with_d ? D.data() : nullptr, &smin, &smax);
    if (!(kappa < 30)) { if (round == 0) c.discard(); continue; }
    if (!rig) rig = std::make_unique<Rig>(k, s, A);
    const Result r = rig->Solve(c, A, b, with_d ? &D : nullptr, c.range(0, 2), -1.0, tol);
    REQUIRE("truncated-success", r.summary.termination_type == LinearSolverTerminationType::SUCCESS, Name(r.summary.termination_type), " '", r.summary.message, "'");
    Vector want(n);
    LeastSquares(A.data(), m, n, b.data(), with_d ? D.data() : nullptr, want.data());
    const Vector e = r.x - want;
    double err2 = (A * e).squaredNorm();
    if (with_d) err2 += D.cwiseProduct(e).squaredNorm();
    const double allowed = (10 * tol * kappa * kappa * kappa * kappa + 1e-20 * std::pow(kappa, 8)) * b.squaredNorm();
    REQUIRE("truncated-error", err2 <= allowed, "squared error ", err2, " allowed ", allowed, " kappa ", kappa, " round ", round, " '", r.summary.message, "'");
    if (allowed < 0.01 * b.squaredNorm() && n > 1 && want.norm() > 0) c.nontrivial();
  }
  c.label(k.o.use_spse_initialization ? "series start" : "zero start");
}

// The conjugate gradients engine itself: any positive definite matrix, preconditioner and start.
struct DenseOp : ConjugateGradientsLinearOperator<Vector> {
  explicit DenseOp(Eigen::MatrixXd m) : m(std::move(m)) {}
  void RightMultiplyAndAccumulate(const Vector& x, Vector& y) final { y += m * x; ++calls; }
  Eigen::MatrixXd m;
  int calls = 0;
};
void Engine(Case& c) {
  const int n = c.range(1, 9);
  const double spread = c.pick({1.0, 2.0, 10.0, 100.0});
  const int distinct = c.range(1, n);
  Eigen::MatrixXd g(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g(i, j) = c.sym(1.0);
  const Eigen::MatrixXd q = Eigen::HouseholderQR<Eigen::MatrixXd>(g).householderQ();
  Vector lambda(n);
  std::vector<double> values;
  for (int i = 0; i < distinct; ++i) values.push_back(c.logreal(1.0, spread));
  for (int i = 0; i < n; ++i) lambda(i) = values[i % distinct];
  std::vector<double> sorted(values);
  std::sort(sorted.begin(), sorted.end());
  int needed = 1;  // at least so many iterations before the solution is reached (without a preconditioner that helps)
  for (size_t i = 1; i < sorted.size(); ++i) needed += sorted[i] > 1.2 * sorted[i - 1];
  const double scale = c.pick({1.0, 1e-8, 1e8});
  Eigen::MatrixXd A = scale * q * lambda.asDiagonal() * q.transpose();
  A = (0.5 * (A + A.transpose())).eval();
  Eigen::MatrixXd M = Eigen::MatrixXd::Identity(n, n);
  const int pre = c.range(0, 2);
  if (pre == 1) for (int i = 0; i < n; ++i) M(i, i) = 1 / A(i, i);
  if (pre == 2) M *= c.pick({1e-3, 1e3, 1.0 / scale});
  const Eigen::MatrixXd root = M.diagonal().cwiseSqrt().asDiagonal();
  const Vector ev = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(root * A * root).eigenvalues();
  if (!(ev(0) > 0)) c.discard();
  const double kappa = ev(n - 1) / ev(0);
  Vector b(n), x(n);
  const double bscale = c.pick({1.0, 1e-6, 1e6});
  for (int i = 0; i < n; ++i) b(i) = bscale * c.sym(1.0);
  if (b.norm() == 0) c.discard();
  const Vector want = A.llt().solve(b);
  const int start = c.range(0, 4);
  const double amount = c.pick({0.1, 1.0, 3.0, 100.0});
  for (int i = 0; i < n; ++i)
    x(i) = start == 0 ? 0.0 : start == 1 ? -amount * want(i) : start == 2 ? 2 * want(i) : start == 3 ? (1 + amount) * want(i) : amount * want.norm() * c.sym(1.0);
  const Vector x0 = x;
  if (pre == 1) needed = 1;
  ConjugateGradientsSolverOptions o;
  o.min_num_iterations = c.range(0, needed);
  o.max_num_iterations = c.coin() ? 20 * n + 20 : c.range(std::max(1, o.min_num_iterations), n + 1);
  o.residual_reset_period = c.pick({1, 2, 3, 10});
  o.r_tolerance = c.pick({-1.0, 1e-10, 1e-4, 0.1});
  o.q_tolerance = c.pick({-HUGE_VAL, 1e-9, 1e-4, 1e-2, 0.1});
  // Without a tolerance, iterations beyond the solution only amplify rounding errors.
  if (o.r_tolerance < 0 && o.q_tolerance < 0) o.max_num_iterations = std::max(o.min_num_iterations, c.range(1, needed));
  o.context = Ctx();
  o.num_threads = c.pick({1, 1, 1, 3});
  c.note() << "n " << n << " kappa " << kappa << " start " << start << " x " << amount << " min " << o.min_num_iterations << " max " << o.max_num_iterations
           << " reset " << o.residual_reset_period << " r " << o.r_tolerance << " q " << o.q_tolerance << " M " << pre;
  DenseOp lhs(A), m(M);
  Vector s0(n), s1(n), s2(n), s3(n);
  for (Vector* v : {&s0, &s1, &s2, &s3}) v->setConstant(c.pick({0.0, 7.0, std::numeric_limits<double>::quiet_NaN()}));
  Vector* scratch[4] = {&s0, &s1, &s2, &s3};
  const LinearSolver::Summary r = ConjugateGradientsSolver<Vector>(o, lhs, b, m, scratch, x);
  REQUIRE("cg-finite", x.allFinite(), r.message);
  auto energy = [&](const Vector& v) { const Vector e = v - want; return e.dot(A * e); };
  const double e0 = energy(x0), e1 = energy(x), q_star = b.dot(want);
  const double eps = 2.3e-16;
  // What rounding leaves: in the residual relative to the largest vector that was involved, also within x0.
  const double big = b.norm() + (A * x0).norm();
  const double round_r = 1e3 * eps * kappa * big, round_e = 1e5 * eps * eps * kappa * kappa * spread * (big * big) / (scale > 0 ? A.diagonal().minCoeff() : 1);
  const double res = (b - A * x).norm();
  REQUIRE("cg-iterations", r.num_iterations <= o.max_num_iterations && r.num_iterations >= 0, r.num_iterations, " iterations");
  REQUIRE("cg-no-worse", e1 <= e0 * (1 + 1e-9) + round_e, "squared energy error ", e0, " -> ", e1, " '", r.message, "'");
  // Optimal over the Krylov space, hence at least as good as the Chebyshev polynomial.
  const double ratio = (std::sqrt(kappa) - 1) / (std::sqrt(kappa) + 1);
  const double cheb = std::min(1.0, 2 * std::pow(ratio, r.num_iterations));
  REQUIRE("cg-rate", e1 <= cheb * cheb * e0 * (1 + 1e-6) + 1e2 * round_e + 1e-20 * e0, "squared energy error ", e0, " -> ", e1, " in ", r.num_iterations, " iterations, kappa ", kappa, " '", r.message, "'");
  if (r.termination_type == LinearSolverTerminationType::SUCCESS) {
    const bool small = res <= o.r_tolerance * b.norm() + round_r;
    // One more iteration makes at least 4 kappa / (kappa + 1)^2 of the progress that was left.
    const double q_abs = std::abs(e1 - q_star);
    const double left = o.q_tolerance > 0 ? o.q_tolerance * q_abs * (kappa + 1) * (kappa + 1) / (4 * kappa) : 0;
    REQUIRE("cg-success", small || e1 <= left * 1.01 + 1e2 * round_e, "residual ", res, " of ", b.norm(), ", squared energy error ", e1, " allowed ", left, " '", r.message, "'");
    REQUIRE("cg-minimum", r.num_iterations >= o.min_num_iterations || res <= round_r, r.num_iterations, " iterations, residual ", res, " '", r.message, "'");
  } else {
    const bool exhausted = r.num_iterations >= o.max_num_iterations;
    REQUIRE("cg-gave-up", exhausted || res <= round_r, Name(r.termination_type), " after ", r.num_iterations, " iterations, residual ", res, " of ", b.norm(), " '", r.message, "'");
    REQUIRE("cg-stopped", r.termination_type == LinearSolverTerminationType::NO_CONVERGENCE || res <= round_r, Name(r.termination_type), " '", r.message, "'");
  }
  c.label(Name(r.termination_type));
  if (start > 0) c.label("from a guess");
  c.nontrivial(r.num_iterations > 1 && n > 1);
}

}  // namespace

PBT_PROP(engine, 150000, 6000000) { Engine(c); }
PBT_PROP(truncated, 40000, 2000000) { Truncated(c); }
PBT_PROP(solve, 90000, 6000000) { Run(c); }
PBT_PROP(singular, 20000, 1000000) { Singular(c); }

PBT_MAIN("C17", "the system has at least two unknowns and a right-hand side that is not zero")
