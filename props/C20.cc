// C20: preconditioners are what they claim.
// pbt-build: flavor=asan
#include "block_gen.h"
#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/detect_structure.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/linear_solver.h"
#include "ceres/power_series_expansion_preconditioner.h"
#include "ceres/preconditioner.h"
#include "ceres/schur_jacobi_preconditioner.h"
#include "ceres/subset_preconditioner.h"
#include "ceres/visibility_based_preconditioner.h"
#include "pbt.h"
#include "schur_model.h"
#include <set>

using namespace ceres;
using namespace ceres::internal;
using namespace sm;
using pbt::Case;

namespace {

constexpr double kEps = 2.3e-16;

ContextImpl* Ctx() {
  static ContextImpl* ctx = [] { auto* c = new ContextImpl; c->EnsureMinimumThreads(4); return c; }();
  return ctx;
}

// The operator, column by column.
Mat Operator(Case& c, const Preconditioner& p, int n) {
  REQUIRE("size", p.num_rows() == n && p.num_cols() == n, p.num_rows(), " want ", n);
  Mat o(n, n);
  for (int j = 0; j < n; ++j) {
    Vector x = Vector::Zero(n + 1), y = Vector::Zero(n + 1);
    x(j) = 1;
    x(n) = 3;
    y(n) = 7;
    p.RightMultiplyAndAccumulate(x.data(), y.data());
    REQUIRE("bounds", y(n) == 7 && x(n) == 3, "");
    for (int i = 0; i < n; ++i) o(i, j) = y(i);
  }
  // Applied from the left, to another vector, it is the same linear operator.
  Vector x = bg::NoiseVector(n * 77 + 1, n, 3), y = Vector::Zero(n);
  p.LeftMultiplyAndAccumulate(x.data(), y.data());
  for (int i = 0; i < n; ++i) {
    LD w = 0;
    for (int j = 0; j < n; ++j) w += o(i, j) * x(j);
    REQUIRE("linear", std::fabs(y(i) - (double)w) <= 1e-9 * (double)o.Max() * n, i, ": ", y(i), " want ", (double)w);
  }
  return o;
}

LD Cond(const Mat& m, const Mat& inv) { return m.Max() * inv.Max() * m.r; }

// The operator is symmetric positive definite and equals `want`.
void Same(Case& c, const char* tag, const Mat& got, const Mat& want, double tol, int round) {
  for (int i = 0; i < got.r; ++i)
    for (int j = 0; j < got.r; ++j) {
      REQUIRE(tag, std::fabs((double)(got(i, j) - want(i, j))) <= tol, i, ",", j, ": ", (double)got(i, j), " want ", (double)want(i, j), " tol ", tol, " round ", round);
      REQUIRE("symmetric", std::fabs((double)(got(i, j) - got(j, i))) <= 2 * tol, i, ",", j);
    }
}

// Blockwise inverse of the diagonal blocks of m; false if one of them is (nearly) singular.
bool BlockInverse(const Mat& m, const std::vector<int>& sizes, Mat* out, LD* cond) {
  *out = Mat(m.r, m.r);
  int p = 0;
  for (int n : sizes) {
    Mat g(n, n), gi;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g(i, j) = m(p + i, p + j);
    if (!Inverse(g, &gi)) return false;
    *cond = std::max(*cond, Cond(g, gi));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (*out)(p + i, p + j) = gi(i, j);
    p += n;
  }
  return true;
}

Mat Normal(const Matrix& A, const Vector* D, int first_row = 0) {
  Mat a(A.rows() - first_row, A.cols());
  for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) a(i, j) = A(i + first_row, j);
  Mat n = Mul(a, a, true);
  if (D) for (int i = 0; i < n.r; ++i) n(i, i) += (LD)(*D)(i) * (*D)(i);
  return n;
}

Vector GenD(const bg::Spec& s, double scale) {
  return (bg::NoiseVector(s.seed, s.num_cols(), 6, 1.0).array().abs() + 0.3) * scale;
}

// ---------------------------------------------------------------- block Jacobi and subset

void BlockJacobi(Case& c) {
  bg::Options o;
  o.max_cols = 7;
  o.max_rows = 14;
  o.max_col_size = 6;
  o.determined = true;
  o.allow_empty_rows = c.chance(1, 3);
  bg::Spec s = bg::Gen(c, o);
  const int kind = c.range(0, 2);  // block sparse, compressed row, wrapped matrix
  if (kind == 1) { s.split = false; for (auto& r : s.rows) if (r.cells.empty()) r.cells.push_back(0); }
  bool use_d = c.coin();
  const double dscale = c.pick({1.0, 1e-2, 30.0});
  Matrix A = bg::Dense(s);
  auto m = bg::Build(s, A);
  Preconditioner::Options po;
  po.num_threads = c.range(1, 4);
  po.context = Ctx();
  po.type = JACOBI;
  c.note() << s.Describe() << (use_d ? " D" : "") << " kind " << kind << " threads " << po.num_threads;
  std::unique_ptr<CompressedRowSparseMatrix> crs;
  std::unique_ptr<Preconditioner> p;
  if (kind == 0) p = std::make_unique<BlockSparseJacobiPreconditioner>(po, *m);
  if (kind == 1) { crs = m->ToCompressedRowSparseMatrix(); p = std::make_unique<BlockCRSJacobiPreconditioner>(po, *crs); }
  std::unique_ptr<BlockSparseMatrix> square;
  const int rounds = c.range(1, 3);
  bool checked = false;
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      s.seed += 101;
      A = bg::Dense(s);
      bg::Fill(A, m.get());
      if (crs) crs = m->ToCompressedRowSparseMatrix();
      use_d = c.coin();
    }
    const Vector D = GenD(s, dscale);
    const Vector D0 = D;
    if (kind == 2) {
      const Mat n = Normal(A, &D);
      square.reset(BlockSparseMatrix::CreateDiagonalMatrix(D.data(), m->block_structure()->cols).release());
      SparseMatrixPreconditionerWrapper w(square.get(), po);
      REQUIRE("update", w.Update(*m, nullptr), "");
      Mat want(A.cols(), A.cols());
      for (int i = 0; i < A.cols(); ++i) want(i, i) = D(i);
      Same(c, "wrapper", Operator(c, w, A.cols()), want, 0, round);
      IdentityPreconditioner id(A.cols());
      REQUIRE("update", id.Update(*m, nullptr), "");
      for (int i = 0; i < A.cols(); ++i) want(i, i) = 1;
      Same(c, "identity", Operator(c, id, A.cols()), want, 0, round);
      checked = true;
      continue;
    }
    Mat want;
    LD cond = 1;
    const bool ok = BlockInverse(Normal(A, use_d ? &D : nullptr), s.cols, &want, &cond) && cond < 1e7L;
    const bool updated = p->Update(kind == 0 ? static_cast<const LinearOperator&>(*m) : *crs, use_d ? D.data() : nullptr);
    REQUIRE("inputs-kept", D == D0, "");
    if (!ok) continue;  // but a later round must not see anything of this one
    REQUIRE("update", updated, "");
    checked = true;
    Same(c, "block-jacobi", Operator(c, *p, A.cols()), want, 500 * kEps * (double)(cond * want.Max()), round);
  }
  c.label(kind == 0 ? "block sparse" : kind == 1 ? "compressed row" : "wrapper");
  c.nontrivial(checked && s.cols.size() > 1);
}

void Subset(Case& c) {
  bg::Options o;
  o.max_cols = 6;
  o.max_rows = 14;
  o.max_col_size = 5;
  o.determined = true;
  bg::Spec s = bg::Gen(c, o);
  bool use_d = c.chance(2, 3);
  const double dscale = c.pick({1.0, 1e-2, 30.0});
  Matrix A = bg::Dense(s);
  auto m = bg::Build(s, A);
  Preconditioner::Options po;
  po.num_threads = c.range(1, 4);
  po.context = Ctx();
  po.type = SUBSET;
  po.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  po.ordering_type = c.pick({OrderingType::NATURAL, OrderingType::AMD});
  const int n = s.rows.size();
  int start = c.coin() ? c.range(0, n - 1) : c.range(0, std::min(2, n - 1));
  po.subset_preconditioner_start_row_block = start;
  int first = 0;
  for (int i = 0; i < start; ++i) first += s.rows[i].size;
  c.note() << s.Describe() << (use_d ? " D" : "") << " from row block " << start << " scale " << dscale;
  SubsetPreconditioner p(po, *m);
  const int rounds = c.range(1, 3);
  bool checked = false;
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      s.seed += 101;
      A = bg::Dense(s);
      bg::Fill(A, m.get());
    }
    const Vector D = GenD(s, dscale);
    const Mat N = Normal(A, use_d ? &D : nullptr, first);
    Mat want;
    const bool ok = Inverse(N, &want) && Cond(N, want) < 1e7L;
    const bool updated = p.Update(*m, use_d ? D.data() : nullptr);
    // The matrix is left as it was.
    REQUIRE("inputs-kept", m->num_rows() == A.rows() && m->block_structure()->rows.size() == s.rows.size() && m->num_nonzeros() == s.nnz(), "");
    Matrix back;
    m->ToDenseMatrix(&back);
    REQUIRE("inputs-kept", back == A, "");
    bool zero = false;
    for (int i = 0; i < N.r; ++i) zero |= N(i, i) == 0;
    if (zero) { REQUIRE("singular-reported", !updated, ""); c.label("zero column"); checked = true; continue; }
    if (!ok) continue;
    REQUIRE("update", updated, "");
    checked = true;
    Same(c, "subset", Operator(c, p, A.cols()), want, 500 * kEps * (double)(Cond(N, want) * want.Max()), round);
  }
  c.label(start == 0 ? "all rows" : "some rows");
  c.nontrivial(checked && start > 0);
}

// A singular subset without regulariser: the solver may fail or be right, not answer with garbage.
void SingularSubset(Case& c) {
  bg::Options o;
  o.min_cols = 2;
  o.max_cols = 5;
  o.max_rows = 8;
  o.max_col_size = 4;
  o.determined = true;
  bg::Spec s = bg::Gen(c, o);
  s.style = 0;
  const Matrix A = bg::Dense(s);
  auto m = bg::Build(s, A);
  LinearSolver::Options lo;
  lo.type = CGNR;
  lo.preconditioner_type = SUBSET;
  lo.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  lo.context = Ctx();
  lo.num_threads = c.range(1, 4);
  lo.max_num_iterations = 500;
  lo.subset_preconditioner_start_row_block = c.range(1, (int)s.rows.size() - 1 > 1 ? s.rows.size() - 1 : 1);
  if (s.rows.size() < 2) c.discard();
  lo.elimination_groups = {(int)s.cols.size()};
  int first = 0;
  for (int i = 0; i < lo.subset_preconditioner_start_row_block; ++i) first += s.rows[i].size;
  const Mat Q = Normal(A, nullptr, first), N = Normal(A, nullptr);
  bool zero = false;
  for (int i = 0; i < Q.r; ++i) zero |= Q(i, i) == 0;
  Mat inv;
  if (!zero || !Inverse(N, &inv) || Cond(N, inv) > 1e4L) c.discard();
  c.note() << s.Describe() << " from row block " << lo.subset_preconditioner_start_row_block;
  auto solver = LinearSolver::Create(lo);
  const Vector b = bg::NoiseVector(s.seed, A.rows(), 5, 3.0);
  Vector x = Vector::Zero(A.cols());
  LinearSolver::PerSolveOptions per;
  per.r_tolerance = 1e-14;
  per.q_tolerance = -std::numeric_limits<double>::infinity();
  const auto summary = solver->Solve(m.get(), b.data(), per, x.data());
  c.note() << " -> " << static_cast<int>(summary.termination_type) << " " << summary.message;
  c.label(summary.termination_type == LinearSolverTerminationType::SUCCESS ? "success" : "failure");
  if (summary.termination_type == LinearSolverTerminationType::SUCCESS) {
    Mat bb(A.rows(), 1), a(A.rows(), A.cols());
    for (int i = 0; i < A.rows(); ++i) { bb(i, 0) = b(i); for (int j = 0; j < A.cols(); ++j) a(i, j) = A(i, j); }
    const Mat want = Mul(inv, Mul(a, bb, true));
    for (int i = 0; i < A.cols(); ++i)
      REQUIRE("singular-subset-solve", std::fabs(x(i) - (double)want(i, 0)) <= 1e-6 * (1 + (double)want.Max()), i, ": ", x(i), " want ", (double)want(i, 0));
  }
  c.nontrivial(true);
}

// ---------------------------------------------------------------- Schur complement based

Preconditioner::Options SchurOptions(Case& c, const System& y, const CompressedRowBlockStructure& bs) {
  Preconditioner::Options po;
  po.num_threads = c.range(1, 4);
  po.context = Ctx();
  po.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  po.ordering_type = c.pick({OrderingType::NATURAL, OrderingType::AMD});
  po.elimination_groups = {y.s.num_e, (int)y.s.cols.size() - y.s.num_e};
  DetectStructure(bs, y.s.num_e, &po.row_block_size, &po.e_block_size, &po.f_block_size);
  return po;
}

std::vector<int> FSizes(const System& y) { return std::vector<int>(y.s.cols.begin() + y.s.num_e, y.s.cols.end()); }

System GenSystem(Case& c) {
  System y;
  bg::Options o;
  o.schur = true;
  o.need_f = true;
  o.max_cols = 7;
  o.max_rows = 14;
  o.common_sizes = c.coin();
  o.max_col_size = 5;
  o.determined = true;
  o.allow_zero_f_only = c.chance(3, 4);
  y.use_d = c.coin();
  y.s = bg::Gen(c, o);
  y.A = bg::Dense(y.s);
  y.b = bg::NoiseVector(y.s.seed, y.A.rows(), 5, 3.0);
  y.D = GenD(y.s, c.pick({1.0, 0.1, 10.0}));
  return y;
}

bool Next(System* y, BlockSparseMatrix* A) {
  y->s.seed += 101;
  y->A = bg::Dense(y->s);
  bg::Fill(y->A, A);
  y->b = bg::NoiseVector(y->s.seed, y->A.rows(), 5, 3.0);
  y->cond = 1;
  return y->Solve();
}

void SchurJacobi(Case& c) {
  System y = GenSystem(c);
  if (!y.Solve()) c.discard();
  auto A = bg::Build(y.s, y.A);
  Preconditioner::Options po = SchurOptions(c, y, *A->block_structure());
  po.type = SCHUR_JACOBI;
  c.note() << y.s.Describe() << (y.use_d ? " D" : "") << " threads " << po.num_threads;
  SchurJacobiPreconditioner p(*A->block_structure(), po);
  const int rounds = c.range(1, 3);
  bool checked = false;
  for (int round = 0; round < rounds; ++round) {
    const bool ok = round == 0 || Next(&y, A.get());
    const bool updated = p.Update(*A, y.use_d ? y.D.data() : nullptr);
    Mat want;
    LD cond = 1;
    if (!ok || !BlockInverse(y.S, FSizes(y), &want, &cond) || cond > 1e6L || y.Scale() * (double)want.Max() > 1e6) continue;
    REQUIRE("update", updated, "");
    checked = true;
    Same(c, "schur-jacobi", Operator(c, p, y.nf), want, 1000 * kEps * y.Scale() * (double)(want.Max() * want.Max()) * y.nf, round);
  }
  c.nontrivial(checked);
}

void PowerSeries(Case& c) {
  System y = GenSystem(c);
  if (!y.Solve()) c.discard();
  auto A = bg::Build(y.s, y.A);
  A->AddTransposeBlockStructure();
  Preconditioner::Options po = SchurOptions(c, y, *A->block_structure());
  LinearSolver::Options lo;
  lo.num_threads = po.num_threads;
  lo.context = Ctx();
  lo.elimination_groups = po.elimination_groups;
  lo.row_block_size = po.row_block_size;
  lo.e_block_size = po.e_block_size;
  lo.f_block_size = po.f_block_size;
  lo.type = ITERATIVE_SCHUR;
  lo.preconditioner_type = SCHUR_POWER_SERIES_EXPANSION;
  po.type = SCHUR_POWER_SERIES_EXPANSION;
  const int terms = c.range(1, 6);
  const double tolerance = c.coin() ? 0.0 : c.pick({0.5, 0.1, 1e-3});
  c.note() << y.s.Describe() << (y.use_d ? " D" : "") << " terms " << terms << " tolerance " << tolerance;
  ImplicitSchurComplement isc(lo);
  PowerSeriesExpansionPreconditioner p(&isc, terms, tolerance, po);
  const int rounds = c.range(1, 3);
  bool checked = false;
  for (int round = 0; round < rounds; ++round) {
    const bool ok = round == 0 || Next(&y, A.get());
    if (!ok) break;
    isc.Init(*A, y.use_d ? y.D.data() : nullptr, y.b.data());
    REQUIRE("update", p.Update(*A, y.use_d ? y.D.data() : nullptr), "");
    Mat FtF = Mul(y.F, y.F, true);
    if (y.use_d) for (int i = 0; i < y.nf; ++i) FtF(i, i) += (LD)y.D(y.ne + i) * y.D(y.ne + i);
    Mat fi;
    LD cond = 1;
    if (!BlockInverse(FtF, FSizes(y), &fi, &cond) || cond > 1e6L) continue;
    checked = true;
    // Z = (F'F)^-1 F'E (E'E)^-1 E'F
    Mat bd(y.nf, y.nf);  // F'F without its off-diagonal blocks
    int pos = 0;
    for (int n : FSizes(y)) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) bd(pos + i, pos + j) = FtF(pos + i, pos + j); pos += n; }
    const Mat Z = Mul(fi, Mul(y.EtF, Mul(y.EtEi, y.EtF), true));
    const double per = 2000 * kEps * (double)(cond * fi.Max()) * (1 + y.Scale() * (double)fi.Max()) * y.nf;
    const auto check = [&](const Vector& x) {
      Mat term(y.nf, 1), sum(y.nf, 1);
      for (int i = 0; i < y.nf; ++i) term(i, 0) = x(i);
      term = Mul(fi, term);
      sum = term;
      const auto norm = [](const Mat& v) { LD s = 0; for (LD q : v.v) s += q * q; return (double)sqrtl(s); };
      const double threshold = tolerance * norm(term);
      const double xmax = x.cwiseAbs().maxCoeff();
      Vector got = Vector::Zero(y.nf + 1);
      got(y.nf) = 9;
      p.RightMultiplyAndAccumulate(x.data(), got.data());
      REQUIRE("bounds", got(y.nf) == 9, "");
      bool match = false;
      std::ostringstream os;
      for (int k = 1; k <= terms && !match; ++k) {
        term = Mul(Z, term);
        for (int i = 0; i < y.nf; ++i) sum(i, 0) += term(i, 0);
        const double size = norm(term);
        const bool stop = k == terms || size < threshold * (1 + 1e-6), may_go = k < terms && size >= threshold * (1 - 1e-6);
        if (stop) {
          match = true;
          for (int i = 0; i < y.nf; ++i) {
            const double tol = per * xmax * (k + 1) + 1e-12 * (double)sum.Max();
            if (!(std::fabs(got(i) - (double)sum(i, 0)) <= tol)) { match = false; os << i << ": " << got(i) << " want " << (double)sum(i, 0) << " tol " << tol << " after " << k << " terms; "; }
          }
          if (!may_go) break;
        }
      }
      REQUIRE("power-series", match, os.str(), " round ", round);
    };
    for (int j = 0; j < std::min(4, y.nf); ++j) {
      Vector x = Vector::Zero(y.nf);
      x((j * 7) % y.nf) = 1;
      check(x);
    }
    check(bg::NoiseVector(y.s.seed, y.nf, 31, 2.0));
    // With a zero tolerance it is a linear, symmetric positive definite operator.
    if (tolerance == 0.0) {
      const Mat o = Operator(c, p, y.nf);
      for (int i = 0; i < y.nf; ++i)
        for (int j = 0; j < i; ++j) REQUIRE("symmetric", std::fabs((double)(o(i, j) - o(j, i))) <= 4 * per * terms + 1e-12 * (double)o.Max(), i, ",", j, " ", (double)o(i, j), " ", (double)o(j, i));
    }
  }
  c.label(std::to_string(terms) + " terms");
  c.nontrivial(checked && y.EtF.Max() > 0);
}

// ---------------------------------------------------------------- clusters

System GenClustered(Case& c) {
  System y;
  bg::Spec& s = y.s;
  const int ncam = c.size(1, 9), npt = c.size(1, 12);
  const int esize = c.pick({1, 3, 2}), fsize = c.pick({1, 2, 3, 0}), rsize = c.pick({2, 2, 1});
  s.num_e = npt;
  for (int i = 0; i < npt; ++i) s.cols.push_back(esize);
  for (int i = 0; i < ncam; ++i) s.cols.push_back(fsize ? fsize : c.range(1, 3));
  std::vector<int> group(ncam);
  const int ngroups = c.range(1, 4);
  for (int& g : group) g = c.range(0, ngroups - 1);
  std::vector<bool> seen(ncam, false);
  for (int e = 0; e < npt; ++e) {
    const int g = c.range(0, ngroups - 1), h = c.chance(1, 3) ? c.range(0, ngroups - 1) : -1;
    std::vector<int> cams;
    for (int f = 0; f < ncam; ++f) {
      bool in = group[f] == g || group[f] == h;
      if (c.chance(1, 12)) in = !in;
      if (in) cams.push_back(f);
    }
    if (cams.empty() && !c.chance(1, 8)) cams.push_back(c.range(0, ncam - 1));
    int total = 0;
    if (c.chance(1, 6) || cams.empty()) {
      bg::Row r;
      r.size = rsize;
      r.cells.push_back(e);
      for (int f : cams) r.cells.push_back(npt + f);
      s.rows.push_back(r);
      total += rsize;
    } else {
      for (int f : cams) { s.rows.push_back({rsize, {e, npt + f}}); total += rsize; }
    }
    for (int f : cams) seen[f] = true;
    for (int k = 0; total < esize + 1; ++k, total += rsize) {
      bg::Row r{rsize, {e}};
      if (!cams.empty()) r.cells.push_back(npt + cams[k % cams.size()]);
      s.rows.push_back(r);
    }
  }
  for (int f = 0; f < ncam; ++f)
    if (!seen[f] || c.chance(1, 5)) {
      bg::Row r{rsize, {npt + f}};
      const int other = c.range(0, ncam - 1);
      if (c.coin() && other != f) { r.cells.push_back(npt + other); std::sort(r.cells.begin(), r.cells.end()); }
      s.rows.push_back(r);
    }
  s.seed = c.draw((1u << 30) - 1) + 1;
  s.style = c.pick({0, 0, 1});
  s.split = c.coin();
  y.use_d = c.chance(5, 6);
  y.A = bg::Dense(s);
  y.b = bg::NoiseVector(s.seed, y.A.rows(), 5, 3.0);
  y.D = GenD(s, c.pick({1.0, 0.3, 0.1, 0.03}));
  return y;
}

void Clusters(Case& c) {
  System y = GenClustered(c);
  if (!y.Solve()) c.discard();
  auto A = bg::Build(y.s, y.A);
  const auto& bs = *A->block_structure();
  Preconditioner::Options po = SchurOptions(c, y, bs);
  po.type = c.pick({CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL});
  po.visibility_clustering_type = c.pick({SINGLE_LINKAGE, CANONICAL_VIEWS});
  const int npt = y.s.num_e, ncam = (int)y.s.cols.size() - npt;
  const bool single = po.visibility_clustering_type == SINGLE_LINKAGE, tri = po.type == CLUSTER_TRIDIAGONAL;
  c.note() << y.s.Describe() << (y.use_d ? " D" : "") << " threads " << po.num_threads << (single ? " single linkage" : " canonical views") << (tri ? " tridiagonal" : " jacobi");
  // Visibility, and which pairs of blocks have a cell in the Schur complement.
  std::vector<std::set<int>> vis(ncam);
  std::vector<std::vector<bool>> cell(ncam, std::vector<bool>(ncam, false));
  for (auto& r : y.s.rows) {
    if (r.cells[0] < npt) for (size_t k = 1; k < r.cells.size(); ++k) vis[r.cells[k] - npt].insert(r.cells[0]);
    else for (int a : r.cells) for (int q : r.cells) cell[a - npt][q - npt] = true;
  }
  const auto shared = [](const std::set<int>& a, const std::set<int>& b) { int n = 0; for (int x : a) n += b.count(x); return n; };
  for (int i = 0; i < ncam; ++i) for (int j = 0; j < ncam; ++j) if (i == j || shared(vis[i], vis[j])) cell[i][j] = true;
  std::vector<int> cluster(ncam);
  std::iota(cluster.begin(), cluster.end(), 0);
  const auto merge = [&](int a, int b) { const int x = cluster[a], z = cluster[b]; for (int& q : cluster) if (q == z) q = x; };
  for (int i = 0; i < ncam; ++i)
    for (int j = i + 1; j < ncam; ++j)
      if (const int n = shared(vis[i], vis[j])) if (n / std::sqrt((double)(vis[i].size() * vis[j].size())) >= 0.9) merge(i, j);

  VisibilityBasedPreconditioner p(bs, po);
  const auto pos = [&] { auto q = y.fpos(); q.push_back(y.nf); return q; }();
  const int rounds = c.range(1, 3);
  bool checked = false;
  std::vector<std::vector<int>> kept(ncam, std::vector<int>(ncam, -1));  // 1 in the preconditioner, 0 not, -1 unknown
  for (int round = 0; round < rounds; ++round) {
    const bool ok = round == 0 || Next(&y, A.get());
    const bool updated = p.Update(*A, y.use_d ? y.D.data() : nullptr);
    if (!ok) continue;
    Mat sinv;
    if (!Inverse(y.S, &sinv) || Cond(y.S, sinv) > 1e6L || y.Scale() * (double)sinv.Max() > 1e6) continue;
    REQUIRE("update", updated, "round ", round);
    const Mat O = Operator(c, p, y.nf);
    // Find out which blocks of S it inverts.
    Mat sym = O, M;
    for (int i = 0; i < y.nf; ++i) for (int j = 0; j < y.nf; ++j) sym(i, j) = (O(i, j) + O(j, i)) / 2;
    REQUIRE("positive-definite", Inverse(sym, &M), "round ", round);
    if (Cond(M, sym) > 1e5L) continue;
    checked = true;
    Mat expected(y.nf, y.nf), unscaled(y.nf, y.nf);
    int scaled = -1;  // whether blocks between clusters are halved
    std::vector<std::pair<int, int>> tiny;
    for (int i = 0; i < ncam; ++i)
      for (int j = i; j < ncam; ++j) {
        LD e0 = 0, e1 = 0, eh = 0, big = 0;
        for (int a = pos[i]; a < pos[i + 1]; ++a)
          for (int b = pos[j]; b < pos[j + 1]; ++b) {
            e0 = std::max(e0, fabsl(M(a, b)));
            e1 = std::max(e1, fabsl(M(a, b) - y.S(a, b)));
            eh = std::max(eh, fabsl(M(a, b) - y.S(a, b) / 2));
            big = std::max(big, fabsl(y.S(a, b)));
          }
        int in;
        double factor = 1;
        if (i == j || cell[i][j] == false) in = i == j;
        else if (big < 1e-4L * y.S.Max()) { in = kept[i][j]; tiny.push_back({i, j}); }  // too small to tell
        else if (e1 < e0 && e1 < eh) in = 1;
        else if (e0 < eh) in = 0;
        else { in = 1; factor = 0.5; }
        if (factor == 0.5) {
          REQUIRE("half-block", tri, i, ",", j);
          if (single) REQUIRE("half-block", cluster[i] != cluster[j], i, ",", j);
          scaled = 1;
        }
        if (kept[i][j] >= 0 && in >= 0) REQUIRE("same-mask", kept[i][j] == in, i, ",", j, " round ", round);
        if (kept[i][j] < 0) kept[i][j] = in;
        if (in == 1)
          for (int a = pos[i]; a < pos[i + 1]; ++a)
            for (int b = pos[j]; b < pos[j + 1]; ++b) {
              expected(a, b) = expected(b, a) = y.S(a, b) * (LD)factor;
              unscaled(a, b) = unscaled(b, a) = y.S(a, b);
            }
      }
    if (scaled == 1) {
      Mat u;
      c.label("halved");
      if (Inverse(unscaled, &u)) REQUIRE("needless-halving", Cond(unscaled, u) > 1e7L, "");
    }
    bool unknown = false;
    if (scaled == 1)
      for (auto [i, j] : tiny) {
        if (!single) unknown = true;
        else if (cluster[i] != cluster[j])
          for (int a = pos[i]; a < pos[i + 1]; ++a) for (int b = pos[j]; b < pos[j + 1]; ++b) expected(a, b) = expected(b, a) = expected(a, b) / 2;
      }
    for (int i = 0; i < ncam; ++i) for (int j = i; j < ncam; ++j) unknown |= kept[i][j] < 0;
    if (unknown) continue;
    Mat want;
    REQUIRE("positive-definite", Inverse(expected, &want), "of the masked matrix");
    Same(c, "cluster-operator", O, want, 1000 * kEps * y.Scale() * (double)(want.Max() * want.Max()) * y.nf * y.nf, round);
    // The mask.
    if (single) {
      std::set<int> ids(cluster.begin(), cluster.end());
      std::vector<int> cl(ids.begin(), ids.end());
      const int n = cl.size();
      std::vector<std::set<int>> cvis(n);
      std::vector<std::vector<int>> edge(n, std::vector<int>(n, -1));
      const auto id = [&](int f) { return std::find(cl.begin(), cl.end(), cluster[f]) - cl.begin(); };
      for (int f = 0; f < ncam; ++f) cvis[id(f)].insert(vis[f].begin(), vis[f].end());
      for (int i = 0; i < ncam; ++i)
        for (int j = i + 1; j < ncam; ++j) {
          if (!cell[i][j]) continue;
          const int a = id(i), b = id(j);
          if (a == b) { REQUIRE("mask", kept[i][j] == 1, "pair ", i, ",", j, " of a cluster is missing"); continue; }
          if (!tri) { REQUIRE("mask", kept[i][j] == 0, "pair ", i, ",", j, " of different clusters"); continue; }
          int& e = edge[std::min(a, b)][std::max(a, b)];
          REQUIRE("mask", e == -1 || e == kept[i][j], "pair ", i, ",", j, ": part of the block of a pair of clusters");
          e = kept[i][j];
        }
      if (tri) {
        std::vector<int> degree(n, 0), comp(n);
        std::iota(comp.begin(), comp.end(), 0);
        for (int a = 0; a < n; ++a)
          for (int b = a + 1; b < n; ++b)
            if (edge[a][b] == 1) {
              REQUIRE("forest", shared(cvis[a], cvis[b]) > 0, "edge without a common e block");
              ++degree[a]; ++degree[b];
              REQUIRE("forest", comp[a] != comp[b], "cycle");
              const int x = comp[a], z = comp[b];
              for (int& q : comp) if (q == z) q = x;
            }
        for (int a = 0; a < n; ++a) REQUIRE("forest", degree[a] <= 2, "degree ", degree[a]);
        // Greedy: an edge left out is blocked by edges at least as heavy.
        for (int a = 0; a < n; ++a)
          for (int b = a + 1; b < n; ++b) {
            const int w = shared(cvis[a], cvis[b]);
            if (w == 0 || edge[a][b] == 1) continue;
            if (edge[a][b] == -1) continue;
            std::vector<int> cmp(n), deg(n, 0);
            std::iota(cmp.begin(), cmp.end(), 0);
            for (int p2 = 0; p2 < n; ++p2)
              for (int q = p2 + 1; q < n; ++q)
                if (edge[p2][q] == 1 && shared(cvis[p2], cvis[q]) >= w) {
                  ++deg[p2]; ++deg[q];
                  const int x = cmp[p2], z = cmp[q];
                  for (int& k : cmp) if (k == z) k = x;
                }
            REQUIRE("forest", deg[a] == 2 || deg[b] == 2 || cmp[a] == cmp[b], "clusters ", a, ",", b, " sharing ", w, " could have been connected");
          }
        if (n > 2) c.label("forest");
      }
      if (n > 1 && n < ncam) c.label("several clusters");
    } else if (!tri) {
      // An equivalence, as far as cells exist.
      std::vector<int> comp(ncam);
      std::iota(comp.begin(), comp.end(), 0);
      for (int i = 0; i < ncam; ++i) for (int j = i + 1; j < ncam; ++j) if (kept[i][j] == 1) { const int x = comp[i], z = comp[j]; for (int& q : comp) if (q == z) q = x; }
      for (int i = 0; i < ncam; ++i) for (int j = i + 1; j < ncam; ++j) if (cell[i][j] && comp[i] == comp[j]) REQUIRE("mask", kept[i][j] == 1, "pair ", i, ",", j, " of a cluster is missing");
    }
  }
  c.label(std::string(single ? "single linkage" : "canonical views") + (tri ? " tridiagonal" : " jacobi"));
  c.nontrivial(checked && ncam > 1);
}

}  // namespace

PBT_PROP(block_jacobi, 50000, 2500000) { BlockJacobi(c); }
PBT_PROP(subset, 40000, 2000000) { Subset(c); }
PBT_PROP(singular_subset, 20000, 500000) { SingularSubset(c); }
PBT_PROP(schur_jacobi, 30000, 1500000) { SchurJacobi(c); }
PBT_PROP(power_series, 20000, 1000000) { PowerSeries(c); }
PBT_PROP(clusters, 40000, 2000000) { Clusters(c); }

PBT_MAIN("C20", "a preconditioner was updated for at least one well-conditioned matrix and its whole operator was compared (several blocks; for the subset a proper subset)")
