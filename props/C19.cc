// C19: variable elimination is exact for every block structure.
// pbt-build: flavor=asan
#include "absl/container/btree_set.h"
#include "block_gen.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/detect_structure.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/linear_solver.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/schur_eliminator.h"
#include "pbt.h"
#include "schur_model.h"

using namespace ceres;
using namespace ceres::internal;
using pbt::Case;

namespace {

ContextImpl* Ctx() {
  static ContextImpl* ctx = [] { auto* c = new ContextImpl; c->EnsureMinimumThreads(4); return c; }();
  return ctx;
}

using namespace sm;

System GenSystem(Case& c, bool allow_dead) {
  System y;
  bg::Options o;
  o.schur = true;
  o.max_cols = 7;
  o.max_rows = 14;
  o.common_sizes = !c.chance(1, 4);
  o.max_col_size = 9;
  o.need_f = !c.chance(1, 10);
  y.use_d = c.coin();
  o.determined = !y.use_d || c.coin();
  o.allow_zero_f_only = !c.chance(1, 4);
  y.s = bg::Gen(c, o);
  if (c.chance(1, 8)) { // the special case with exactly one f block
    for (auto& r : y.s.rows) r.size = 2;
    for (int i = 0; i < y.s.num_e; ++i) y.s.cols[i] = 3;
    for (size_t i = y.s.num_e; i < y.s.cols.size(); ++i) y.s.cols[i] = 6;
  }
  y.A = bg::Dense(y.s);
  const int ne = y.s.num_cols_e();
  if (allow_dead) {
    y.use_d = false;
    y.dead.assign(ne, false);
    for (int j = 0; j < ne; ++j) if (c.chance(1, 3)) { y.dead[j] = true; y.A.col(j).setZero(); }
  }
  y.b = bg::NoiseVector(y.s.seed, y.A.rows(), 5, 3.0);
  y.D = bg::NoiseVector(y.s.seed, y.A.cols(), 6, 1.0).array().abs() + 0.3;
  return y;
}

// Which code the library would pick, or one of its more general forms.
void Sizes(Case& c, const bg::Spec& s, const CompressedRowBlockStructure& bs, LinearSolver::Options* o) {
  DetectStructure(bs, s.num_e, &o->row_block_size, &o->e_block_size, &o->f_block_size);
  // Reference detection.
  int r = 0, e = 0, f = 0;
  const auto merge = [](int* x, int v) { *x = *x == 0 || *x == v ? v : Eigen::Dynamic; };
  bool rd = false, ed = false, fd = false;
  for (auto& row : s.rows) {
    if (row.cells[0] >= s.num_e) break;
    if (!rd) { merge(&r, row.size); rd = r == Eigen::Dynamic; }
    if (!ed) { merge(&e, s.cols[row.cells[0]]); ed = e == Eigen::Dynamic; }
    for (size_t k = 1; k < row.cells.size(); ++k) if (!fd) { merge(&f, s.cols[row.cells[k]]); fd = f == Eigen::Dynamic; }
  }
  const bool all = rd && ed;
  REQUIRE("detect-structure", o->row_block_size == r && o->e_block_size == e && (o->f_block_size == f || all),
          "found <", o->row_block_size, ",", o->e_block_size, ",", o->f_block_size, "> want <", r, ",", e, ",", f, ">");
  const int general = c.range(0, 5);
  if (general == 1) o->f_block_size = Eigen::Dynamic;
  if (general == 2) o->f_block_size = o->e_block_size = Eigen::Dynamic;
  if (general == 3) o->f_block_size = o->e_block_size = o->row_block_size = Eigen::Dynamic;
}

void Label(Case& c, const LinearSolver::Options& o) {
  const auto n = [](int x) { return x == Eigen::Dynamic ? std::string("d") : std::to_string(x); };
  c.label("<" + n(o.row_block_size) + "," + n(o.e_block_size) + "," + n(o.f_block_size) + ">");
}

void Eliminate(Case& c) {
  System y = GenSystem(c, c.chance(1, 6));
  const bool dead = !y.dead.empty();
  if (!y.Solve()) c.discard();
  auto A = bg::Build(y.s, y.A);
  LinearSolver::Options o;
  o.num_threads = c.range(1, 4);
  o.context = Ctx();
  o.elimination_groups = {y.s.num_e, (int)y.s.cols.size() - y.s.num_e};
  Sizes(c, y.s, *A->block_structure(), &o);
  const int nfb = y.s.cols.size() - y.s.num_e;
  std::unique_ptr<SchurEliminatorBase> el;
  bool one_f = o.row_block_size == 2 && o.e_block_size == 3 && o.f_block_size == 6 && nfb == 1 && !dead && y.s.cols.back() == 6;
  for (auto& r : y.s.rows) one_f &= r.size == 2;
  if (one_f && c.coin()) { el = std::make_unique<SchurEliminatorForOneFBlock<2, 3, 6>>(); c.label("one f block"); }
  else { el = SchurEliminatorBase::Create(o); one_f = false; }
  const int kind = one_f ? 0 : c.range(0, 2);  // dense, sparse, diagonal lhs
  c.note() << y.s.Describe() << (y.use_d ? " D" : "") << (dead ? " dead columns" : "") << " <" << o.row_block_size << "," << o.e_block_size << "," << o.f_block_size << "> threads "
           << o.num_threads << " lhs " << kind << (one_f ? " one-f" : "");
  if (y.nf == 0 && kind != 0) c.discard();
  el->Init(y.s.num_e, !dead, A->block_structure());
  const std::vector<Block> fblocks(A->block_structure()->cols.begin() + y.s.num_e, A->block_structure()->cols.end());
  std::vector<Block> blocks = fblocks;
  int at = 0;
  for (auto& q : blocks) { q.position = at; at += q.size; }
  // Which pairs must exist.
  absl::btree_set<std::pair<int, int>> pairs;
  for (int i = 0; i < nfb; ++i) pairs.insert({i, i});
  for (int e = -1; e < y.s.num_e; ++e) {
    std::vector<int> touched;
    for (auto& r : y.s.rows) {
      if (e >= 0 ? r.cells[0] != e : r.cells[0] < y.s.num_e) continue;
      if (e < 0) touched.clear();
      for (int k : r.cells) if (k >= y.s.num_e) touched.push_back(k - y.s.num_e);
      for (int a : touched) for (int q : touched) if (a <= q) pairs.insert({a, q});
    }
  }
  std::unique_ptr<BlockRandomAccessMatrix> lhs;
  if (kind == 0) lhs = std::make_unique<BlockRandomAccessDenseMatrix>(blocks, Ctx(), o.num_threads);
  if (kind == 1) lhs = std::make_unique<BlockRandomAccessSparseMatrix>(blocks, pairs, Ctx(), o.num_threads);
  if (kind == 2) lhs = std::make_unique<BlockRandomAccessDiagonalMatrix>(blocks, Ctx(), o.num_threads);
  const int rounds = c.range(1, 3);
  std::vector<double> zero(1, 0.0);
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      y.s.seed += 101;
      y.A = bg::Dense(y.s);
      if (dead) for (int j = 0; j < y.ne; ++j) if (y.dead[j]) y.A.col(j).setZero();
      y.b = bg::NoiseVector(y.s.seed, y.A.rows(), 5, 3.0);
      y.cond = 1;
      if (!y.Solve()) break;
      bg::Fill(y.A, A.get());
    }
    const bool with_rhs = kind != 2 || c.coin();
    Vector rhs = Vector::Constant(y.nf + 1, 77.0);
    const Vector b = y.b, D = y.D;
    el->Eliminate(BlockSparseMatrixData(*A), with_rhs ? b.data() : nullptr, y.use_d ? D.data() : nullptr, lhs.get(), with_rhs ? rhs.data() : nullptr);
    REQUIRE("rhs-bounds", rhs(y.nf) == 77.0, "");
    REQUIRE("inputs-kept", b == y.b && D == y.D, "");
    const double tol = 500 * kEps * y.Scale();
    const auto pos = y.fpos();
    for (int i = 0; i < nfb; ++i)
      for (int j = i; j < nfb; ++j) {
        int r, q, rs, cs;
        CellInfo* cell = lhs->GetCell(i, j, &r, &q, &rs, &cs);
        const bool wanted = kind == 0 || (kind == 2 ? i == j : pairs.count({i, j}) > 0);
        REQUIRE("cell", (cell != nullptr) == wanted, i, ",", j);
        const int ni = blocks[i].size, nj = blocks[j].size;
        for (int a = 0; a < ni; ++a)
          for (int d = 0; d < nj; ++d) {
            const double want = (double)y.S(pos[i] + a, pos[j] + d);
            if (cell == nullptr) { REQUIRE("structurally-zero", kind == 2 || std::fabs(want) <= tol, i, ",", j, ": ", want); continue; }
            const double got = cell->values[(size_t)(r + a) * cs + q + d];
            REQUIRE("schur-complement", std::fabs(got - want) <= tol, "block ", i, ",", j, " entry ", a, ",", d, ": ", got, " want ", want, " tol ", tol, " round ", round);
          }
      }
    if (with_rhs) {
      for (int i = 0; i < y.nf; ++i)
        REQUIRE("reduced-rhs", std::fabs(rhs(i) - (double)y.rhs(i, 0)) <= tol * 10 + 500 * kEps * (double)(y.cond * y.F.Max()) * y.b.norm() * y.m, i, ": ", rhs(i), " want ", (double)y.rhs(i, 0));
      const Vector z = bg::NoiseVector(y.s.seed, y.nf + 1, 11, 2.0);
      Vector back = Vector::Zero(y.ne + 1);
      back(y.ne) = 55.0;
      el->BackSubstitute(BlockSparseMatrixData(*A), b.data(), y.use_d ? D.data() : nullptr, z.data(), back.data());
      const Mat want = y.Back(z);
      REQUIRE("back-bounds", back(y.ne) == 55.0, "");
      const double size = (double)(want.Max() + y.EtEi.Max() * y.E.Max() * (y.b.norm() + 2 * y.F.Max() * y.nf) * y.m);
      for (int i = 0; i < y.ne; ++i)
        REQUIRE("back-substitute", std::fabs(back(i) - (double)want(i, 0)) <= 500 * kEps * (double)y.cond * size, i, ": ", back(i), " want ", (double)want(i, 0));
    }
  }
  Label(c, o);
  c.nontrivial(y.nf > 0 && y.EtF.Max() > 0);
}

void View(Case& c) {
  System y = GenSystem(c, false);
  if (!y.Solve()) c.discard();
  auto A = bg::Build(y.s, y.A);
  LinearSolver::Options o;
  o.num_threads = c.range(1, 4);
  o.context = Ctx();
  o.elimination_groups = {y.s.num_e, (int)y.s.cols.size() - y.s.num_e};
  if (o.num_threads > 1 || c.coin()) A->AddTransposeBlockStructure();
  Sizes(c, y.s, *A->block_structure(), &o);
  c.note() << y.s.Describe() << " <" << o.row_block_size << "," << o.e_block_size << "," << o.f_block_size << "> threads " << o.num_threads;
  auto v = PartitionedMatrixViewBase::Create(o, *A);
  REQUIRE("view-sizes", v->num_cols_e() == y.ne && v->num_cols_f() == y.nf && v->num_rows() == y.m && v->num_cols() == y.ne + y.nf && v->num_col_blocks_e() == y.s.num_e &&
                            v->num_col_blocks_f() == (int)y.s.cols.size() - y.s.num_e, "");
  const auto product = [&](const char* name, const Mat& M, bool left, auto&& call) {
    const int in = left ? M.r : M.c, out = left ? M.c : M.r;
    const Vector x = bg::NoiseVector(y.s.seed, in + 1, 21, 1.0);
    Vector r = bg::NoiseVector(y.s.seed, out + 1, 22, 1.0);
    const Vector r0 = r;
    call(x.data(), r.data());
    Mat xx(in, 1);
    for (int i = 0; i < in; ++i) xx(i, 0) = x(i);
    const Mat w = Mul(M, xx, left);
    REQUIRE("view-bounds", r(out) == r0(out), name);
    for (int i = 0; i < out; ++i) {
      const double want = r0(i) + (double)w(i, 0);
      REQUIRE("view-product", std::fabs(r(i) - want) <= 100 * kEps * (1 + (double)M.Max() * in), name, " ", i, ": ", r(i), " want ", want);
    }
  };
  product("E x", y.E, false, [&](const double* x, double* r) { v->RightMultiplyAndAccumulateE(x, r); });
  product("E' x", y.E, true, [&](const double* x, double* r) { v->LeftMultiplyAndAccumulateE(x, r); });
  product("E' x single", y.E, true, [&](const double* x, double* r) { v->LeftMultiplyAndAccumulateESingleThreaded(x, r); });
  if (y.nf > 0) {
    product("F x", y.F, false, [&](const double* x, double* r) { v->RightMultiplyAndAccumulateF(x, r); });
    product("F' x", y.F, true, [&](const double* x, double* r) { v->LeftMultiplyAndAccumulateF(x, r); });
    product("F' x single", y.F, true, [&](const double* x, double* r) { v->LeftMultiplyAndAccumulateFSingleThreaded(x, r); });
  }
  // Block diagonals.
  const auto diagonal = [&](const char* name, const Mat& M, const BlockSparseMatrix& d, int first, int last) {
    const auto* bs = d.block_structure();
    REQUIRE("diagonal-structure", (int)bs->rows.size() == last - first && (int)bs->cols.size() == last - first, name);
    int p = 0;
    for (int k = first; k < last; ++k) {
      const auto& row = bs->rows[k - first];
      REQUIRE("diagonal-structure", row.cells.size() == 1 && row.cells[0].block_id == k - first && row.block.size == y.s.cols[k], name, " ", k);
      for (int i = 0; i < y.s.cols[k]; ++i)
        for (int j = 0; j < y.s.cols[k]; ++j) {
          LD w = 0;
          for (int l = 0; l < M.r; ++l) w += M(l, p + i) * M(l, p + j);
          const double got = d.values()[row.cells[0].position + i * y.s.cols[k] + j];
          REQUIRE("diagonal-block", std::fabs(got - (double)w) <= 100 * kEps * (double)(M.Max() * M.Max()) * M.r + 1e-300, name, " block ", k, " ", i, ",", j, ": ", got, " want ", (double)w);
        }
      p += y.s.cols[k];
    }
  };
  auto de = v->CreateBlockDiagonalEtE();
  diagonal("EtE", y.E, *de, 0, y.s.num_e);
  std::fill(de->mutable_values(), de->mutable_values() + de->num_nonzeros(), 9.0);
  v->UpdateBlockDiagonalEtE(de.get());
  diagonal("EtE updated", y.E, *de, 0, y.s.num_e);
  if (y.nf > 0) {
    auto df = v->CreateBlockDiagonalFtF();
    diagonal("FtF", y.F, *df, y.s.num_e, y.s.cols.size());
    std::fill(df->mutable_values(), df->mutable_values() + df->num_nonzeros(), 9.0);
    v->UpdateBlockDiagonalFtF(df.get());
    diagonal("FtF updated", y.F, *df, y.s.num_e, y.s.cols.size());
  }
  Label(c, o);
  c.nontrivial(y.nf > 0);
}

void Implicit(Case& c) {
  System y = GenSystem(c, false);
  if (!y.Solve() || y.nf == 0) c.discard();
  auto A = bg::Build(y.s, y.A);
  LinearSolver::Options o;
  o.num_threads = c.range(1, 4);
  o.context = Ctx();
  o.elimination_groups = {y.s.num_e, (int)y.s.cols.size() - y.s.num_e};
  A->AddTransposeBlockStructure();
  Sizes(c, y.s, *A->block_structure(), &o);
  o.type = ITERATIVE_SCHUR;
  // The inverse of the block diagonal of F'F only exists if F has full rank blockwise.
  bool ftf = c.coin();
  std::vector<Mat> finv;
  LD fcond = 1;
  const auto factor_f = [&] {
    finv.clear();
    int p = 0;
    for (size_t k = y.s.num_e; k < y.s.cols.size(); ++k) {
      const int n = y.s.cols[k];
      Mat g(n, n), gi;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { for (int l = 0; l < y.m; ++l) g(i, j) += y.F(l, p + i) * y.F(l, p + j); if (i == j && y.use_d) g(i, j) += (LD)y.D(y.ne + p + i) * y.D(y.ne + p + i); }
      if (!Inverse(g, &gi)) return false;
      fcond = std::max(fcond, g.Max() * gi.Max() * n);
      finv.push_back(gi);
      p += n;
    }
    return fcond < 1e7L;
  };
  if (ftf && !factor_f()) ftf = false;
  o.preconditioner_type = ftf ? c.pick({JACOBI, SCHUR_POWER_SERIES_EXPANSION}) : c.pick({IDENTITY, SCHUR_JACOBI});
  c.note() << y.s.Describe() << (y.use_d ? " D" : "") << " <" << o.row_block_size << "," << o.e_block_size << "," << o.f_block_size << "> threads " << o.num_threads << (ftf ? " FtF" : "");
  ImplicitSchurComplement isc(o);
  const int rounds = c.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      y.s.seed += 101;
      y.A = bg::Dense(y.s);
      y.b = bg::NoiseVector(y.s.seed, y.A.rows(), 5, 3.0);
      y.cond = 1;
      if (!y.Solve() || (ftf && !factor_f())) break;
      bg::Fill(y.A, A.get());
    }
    const Vector b = y.b, D = y.D;
    isc.Init(*A, y.use_d ? D.data() : nullptr, b.data());
    REQUIRE("implicit-size", isc.num_rows() == y.nf && isc.num_cols() == y.nf && isc.rhs().size() == y.nf, "");
    const double tol = 1000 * kEps * y.Scale() * y.nf;
    const Vector x = bg::NoiseVector(y.s.seed, y.nf + 1, 31, 1.0);
    Vector r = Vector::Zero(y.nf + 1);
    r(y.nf) = 5;
    isc.RightMultiplyAndAccumulate(x.data(), r.data());
    REQUIRE("implicit-bounds", r(y.nf) == 5, "");
    for (int i = 0; i < y.nf; ++i) {
      LD w = 0;
      for (int j = 0; j < y.nf; ++j) w += y.S(i, j) * x(j);
      REQUIRE("implicit-product", std::fabs(r(i) - (double)w) <= tol, i, ": ", r(i), " want ", (double)w, " round ", round);
      REQUIRE("implicit-rhs", std::fabs(isc.rhs()(i) - (double)y.rhs(i, 0)) <= 10 * tol + 500 * kEps * (double)(y.cond * y.F.Max()) * y.b.norm() * y.m, i, ": ", isc.rhs()(i), " want ", (double)y.rhs(i, 0));
    }
    Vector full = Vector::Constant(y.ne + y.nf + 1, NAN);
    full(y.ne + y.nf) = 5;
    isc.BackSubstitute(x.data(), full.data());
    const Mat want = y.Back(x);
    const double size = (double)(want.Max() + y.EtEi.Max() * y.E.Max() * (y.b.norm() + y.F.Max() * y.nf) * y.m);
    for (int i = 0; i < y.ne; ++i) REQUIRE("implicit-back", std::fabs(full(i) - (double)want(i, 0)) <= 500 * kEps * (double)y.cond * size, i, ": ", full(i), " want ", (double)want(i, 0));
    for (int i = 0; i < y.nf; ++i) REQUIRE("implicit-back", full(y.ne + i) == x(i), "f part ", i);
    REQUIRE("implicit-bounds", full(y.ne + y.nf) == 5, "");
    // The inverted block diagonals.
    {
      Matrix d;
      isc.block_diagonal_EtE_inverse()->ToDenseMatrix(&d);
      for (int i = 0; i < y.ne; ++i) for (int j = 0; j < y.ne; ++j)
        REQUIRE("ete-inverse", std::fabs(d(i, j) - (double)y.EtEi(i, j)) <= 500 * kEps * (double)(y.cond * y.EtEi.Max()), i, ",", j, ": ", d(i, j), " want ", (double)y.EtEi(i, j));
    }
    if (!ftf) continue;
    Mat fi(y.nf, y.nf);
    int p = 0;
    for (auto& q : finv) { for (int i = 0; i < q.r; ++i) for (int j = 0; j < q.r; ++j) fi(p + i, p + j) = q(i, j); p += q.r; }
    Matrix d;
    isc.block_diagonal_FtF_inverse()->ToDenseMatrix(&d);
    for (int i = 0; i < y.nf; ++i) for (int j = 0; j < y.nf; ++j)
      REQUIRE("ftf-inverse", std::fabs(d(i, j) - (double)fi(i, j)) <= 500 * kEps * (double)(fcond * fi.Max()), i, ",", j, ": ", d(i, j), " want ", (double)fi(i, j));
    // (F'F)^-1 F'E (E'E)^-1 E'F x, accumulated.
    Mat xx(y.nf, 1);
    for (int i = 0; i < y.nf; ++i) xx(i, 0) = x(i);
    const Mat w = Mul(fi, Mul(y.EtF, Mul(y.EtEi, Mul(y.EtF, xx)), true));
    Vector z = bg::NoiseVector(y.s.seed, y.nf, 33, 1.0);
    const Vector z0 = z;
    isc.InversePowerSeriesOperatorRightMultiplyAccumulate(x.data(), z.data());
    for (int i = 0; i < y.nf; ++i)
      REQUIRE("power-series-operator", std::fabs(z(i) - z0(i) - (double)w(i, 0)) <= 1000 * kEps * (1 + (double)(fcond * fi.Max()) * y.Scale() * y.nf), i, ": ", z(i) - z0(i), " want ", (double)w(i, 0));
  }
  Label(c, o);
  c.nontrivial(y.EtF.Max() > 0);
}

}  // namespace

PBT_PROP(eliminate, 60000, 3000000) { Eliminate(c); }
PBT_PROP(view, 40000, 2000000) { View(c); }
PBT_PROP(implicit, 30000, 1500000) { Implicit(c); }

PBT_MAIN("C19", "the matrix has columns that stay, and (for elimination) they are coupled to the eliminated ones")
