// C18: sparse and block matrices agree with dense linear algebra.
// pbt-build: flavor=asan
#include <cstdio>
#include <cstdlib>

#include "Eigen/Cholesky"
#include "absl/container/btree_set.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/compressed_col_sparse_matrix_utils.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/inner_product_computer.h"
#include "ceres/triplet_sparse_matrix.h"
#include "block_gen.h"
#include "pbt.h"

using namespace ceres;
using namespace ceres::internal;
using pbt::Case;
using pbt::Str;

namespace {

ContextImpl* Ctx() {
  static ContextImpl* ctx = [] { auto* c = new ContextImpl; c->EnsureMinimumThreads(4); return c; }();
  return ctx;
}

void Same(Case& c, const char* tag, const Matrix& got, const Matrix& want, const std::string& what) {
  REQUIRE(tag, got.rows() == want.rows() && got.cols() == want.cols(), what, ": size ", got.rows(), "x", got.cols(),
          " want ", want.rows(), "x", want.cols());
  for (int i = 0; i < got.rows(); ++i)
    for (int j = 0; j < got.cols(); ++j)
      REQUIRE(tag, got(i, j) == want(i, j), what, " (", i, ",", j, ") = ", got(i, j), " want ", want(i, j));
}
// |got - want| <= 1e-14 * n * bound (entrywise, bound from absolute values).
void Near(Case& c, const char* tag, const Vector& got, const Vector& want, const Vector& mag, const std::string& what) {
  REQUIRE(tag, got.size() == want.size(), what, ": size ", got.size(), " want ", want.size());
  for (int i = 0; i < got.size(); ++i)
    REQUIRE(tag, std::fabs(got[i] - want[i]) <= 4e-14 * (mag[i] + 1e-300), what, " [", i, "] = ", got[i], " want ", want[i]);
}

Matrix VStack(const Matrix& a, const Matrix& b) {
  Matrix m(a.rows() + b.rows(), a.cols());
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) m(i, j) = i < a.rows() ? a(i, j) : b(i - a.rows(), j);
  return m;
}
Matrix HStack(const Matrix& a, const Matrix& b) {
  Matrix m(a.rows(), a.cols() + b.cols());
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) m(i, j) = j < a.cols() ? a(i, j) : b(i, j - a.cols());
  return m;
}
double dummy_;
double* P(Vector& v) { return v.size() ? v.data() : &dummy_; }
const double* P(const Vector& v) { return v.size() ? v.data() : &dummy_; }

// Every operation of the SparseMatrix interface that leaves the matrix alone.
void CheckReads(Case& c, const SparseMatrix& m, const Matrix& d, bool norms = true) {
  REQUIRE("size", m.num_rows() == d.rows() && m.num_cols() == d.cols(), m.num_rows(), "x", m.num_cols(), " want ",
          d.rows(), "x", d.cols());
  Matrix got;
  m.ToDenseMatrix(&got);
  Same(c, "to-dense", got, d, "ToDenseMatrix");
  const uint64_t seed = c.draw(1u << 20) + 1;
  const int threads = c.range(1, 5);
  const Vector x = bg::NoiseVector(seed, d.cols(), 1), y0 = bg::NoiseVector(seed, d.rows(), 2);
  const Vector u = bg::NoiseVector(seed, d.rows(), 3), v0 = bg::NoiseVector(seed, d.cols(), 4);
  const Vector want_y = y0 + d * x, want_v = v0 + d.transpose() * u;
  const Vector mag_y = y0.cwiseAbs() + d.cwiseAbs() * x.cwiseAbs();
  const Vector mag_v = v0.cwiseAbs() + d.cwiseAbs().transpose() * u.cwiseAbs();
  Vector y = y0;
  m.RightMultiplyAndAccumulate(P(x), P(y));
  Near(c, "right-multiply", y, want_y, mag_y, "A x");
  y = y0;
  m.RightMultiplyAndAccumulate(P(x), P(y), Ctx(), threads);
  Near(c, "right-multiply", y, want_y, mag_y, Str("A x, ", threads, " threads"));
  Vector v = v0;
  m.LeftMultiplyAndAccumulate(P(u), P(v));
  Near(c, "left-multiply", v, want_v, mag_v, "A'u");
  v = v0;
  static_cast<const LinearOperator&>(m).LeftMultiplyAndAccumulate(P(u), P(v), Ctx(), threads);
  Near(c, "left-multiply", v, want_v, mag_v, Str("A'u, ", threads, " threads"));
  if (norms) {
    const Vector want = d.colwise().squaredNorm();
    Vector n = Vector::Constant(d.cols(), 7);
    m.SquaredColumnNorm(P(n));
    Near(c, "column-norm", n, want, want, "column norms");
    n.setConstant(7);
    m.SquaredColumnNorm(P(n), Ctx(), threads);
    Near(c, "column-norm", n, want, want, Str("column norms, ", threads, " threads"));
  }
}

void CheckText(Case& c, const SparseMatrix& m, const Matrix& d) {
  char* buf = nullptr;
  size_t len = 0;
  FILE* f = open_memstream(&buf, &len);
  m.ToTextFile(f);
  std::fclose(f);
  Matrix got = Matrix::Zero(d.rows(), d.cols());
  std::istringstream in(std::string(buf, len));
  std::free(buf);
  int r, k;
  double v;
  while (in >> r >> k >> v) {
    REQUIRE("text", r >= 0 && r < d.rows() && k >= 0 && k < d.cols(), "entry (", r, ",", k, ")");
    got(r, k) += v;
  }
  for (int i = 0; i < d.rows(); ++i)
    for (int j = 0; j < d.cols(); ++j)
      REQUIRE("text", std::fabs(got(i, j) - d(i, j)) <= 2e-6, "text (", i, ",", j, ") = ", got(i, j), " want ", d(i, j));
}

void CheckCrs(Case& c, const CompressedRowSparseMatrix& m, const Matrix& d, const char* what) {
  REQUIRE("crs-size", m.num_rows() == d.rows() && m.num_cols() == d.cols(), what);
  REQUIRE("crs-rows", m.rows()[0] == 0, what);
  for (int r = 0; r < m.num_rows(); ++r) {
    REQUIRE("crs-rows", m.rows()[r] <= m.rows()[r + 1], what, " row ", r);
    for (int i = m.rows()[r]; i < m.rows()[r + 1]; ++i) {
      REQUIRE("crs-cols", m.cols()[i] >= 0 && m.cols()[i] < m.num_cols(), what, " row ", r, " col ", m.cols()[i]);
      if (i > m.rows()[r]) REQUIRE("crs-cols", m.cols()[i] > m.cols()[i - 1], what, " row ", r, " unsorted");
    }
  }
  Matrix got;
  m.ToDenseMatrix(&got);
  Same(c, "crs-values", got, d, what);
}

void CheckTransposeStructure(Case& c, const BlockSparseMatrix& m) {
  const auto* bs = m.block_structure();
  const auto* t = m.transpose_block_structure();
  REQUIRE("transpose", t != nullptr, "no transpose block structure");
  REQUIRE("transpose", t->rows.size() == bs->cols.size() && t->cols.size() == bs->rows.size(), "shape");
  int cumulative = 0;
  std::vector<std::set<std::pair<int, int>>> want(bs->cols.size());
  for (size_t r = 0; r < bs->rows.size(); ++r)
    for (auto& cell : bs->rows[r].cells) want[cell.block_id].insert({static_cast<int>(r), cell.position});
  for (size_t j = 0; j < t->rows.size(); ++j) {
    REQUIRE("transpose", t->rows[j].block == bs->cols[j], "column block ", j);
    int nnz = 0;
    std::set<std::pair<int, int>> got;
    int last = -1;
    for (auto& cell : t->rows[j].cells) {
      got.insert({cell.block_id, cell.position});
      REQUIRE("transpose", cell.block_id > last, "column ", j, ": cells out of order");
      last = cell.block_id;
      nnz += bs->cols[j].size * bs->rows[cell.block_id].block.size;
    }
    REQUIRE("transpose", got == want[j], "cells of column block ", j);
    REQUIRE("transpose", t->rows[j].nnz == nnz, "nnz of column ", j, ": ", t->rows[j].nnz, " want ", nnz);
    cumulative += nnz;
    REQUIRE("transpose", t->rows[j].cumulative_nnz == cumulative, "cumulative nnz of column ", j, ": ",
            t->rows[j].cumulative_nnz, " want ", cumulative);
  }
  for (size_t r = 0; r < bs->rows.size(); ++r) REQUIRE("transpose", t->cols[r] == bs->rows[r].block, "row block ", r);
}

}  // namespace

// ------------------------------------------------------------ BlockSparseMatrix
PBT_PROP(block, 24000, 150000) {
  bg::Options o;
  o.allow_empty_rows = true;
  bg::Spec s = bg::Gen(c, o);
  Matrix d = bg::Dense(s);
  auto m = bg::Build(s, d);
  c.note() << s.Describe() << " ops:";
  c.label(s.split ? "split layout" : "sequential layout");
  struct Appended { int blocks; int rows; };
  std::vector<Appended> stack;
  const int ops = c.size(1, 10);
  int writes = 0;
  for (int k = 0; k < ops; ++k) {
    switch (c.range(0, 8)) {
      case 0: {  // append
        bg::Spec t = s;
        t.split = false;
        t.seed = c.draw(1u << 20) + 1;
        t.rows.clear();
        const int rows = c.range(0, 4);
        for (int i = 0; i < rows; ++i) {
          bg::Row r;
          r.size = c.range(1, 4);
          for (size_t j = 0; j < s.cols.size(); ++j) if (c.coin()) r.cells.push_back(static_cast<int>(j));
          t.rows.push_back(r);
        }
        const Matrix add = bg::Dense(t);
        const auto b = bg::Build(t, add);
        m->AppendRows(*b);
        d = VStack(d, add);
        stack.push_back({rows, static_cast<int>(add.rows())});
        c.note() << " append(" << rows << ")";
        ++writes;
        break;
      }
      case 1: {  // append a diagonal
        const Vector diag = bg::NoiseVector(c.draw(1u << 20) + 1, d.cols());
        const auto b = BlockSparseMatrix::CreateDiagonalMatrix(P(diag), m->block_structure()->cols);
        Matrix bd;
        b->ToDenseMatrix(&bd);
        Same(c, "diagonal", bd, Matrix(diag.asDiagonal()), "CreateDiagonalMatrix");
        m->AppendRows(*b);
        d = VStack(d, bd);
        stack.push_back({static_cast<int>(s.cols.size()), static_cast<int>(bd.rows())});
        c.note() << " append(diag)";
        ++writes;
        break;
      }
      case 2: {  // delete: what was appended last, or bottom rows of a sequential matrix
        if (!stack.empty()) {
          const auto a = stack.back();
          stack.pop_back();
          m->DeleteRowBlocks(a.blocks);
          d = Matrix(d.topRows(d.rows() - a.rows));
          c.note() << " delete(" << a.blocks << ")";
          ++writes;
        } else if (!s.split) {
          const auto* bs = m->block_structure();
          const int n = c.range(0, static_cast<int>(bs->rows.size()));
          int rows = 0;
          for (int i = 0; i < n; ++i) rows += bs->rows[bs->rows.size() - 1 - i].block.size;
          m->DeleteRowBlocks(n);
          d = Matrix(d.topRows(d.rows() - rows));
          c.note() << " delete(" << n << ")";
          ++writes;
        }
        break;
      }
      case 3: {  // scale
        const Vector sc = bg::NoiseVector(c.draw(1u << 20) + 1, d.cols(), 0, 3);
        const int threads = c.range(0, 4);
        if (threads == 0) m->ScaleColumns(P(sc));
        else m->ScaleColumns(P(sc), Ctx(), threads);
        d = d * sc.asDiagonal();
        c.note() << " scale/" << threads;
        ++writes;
        break;
      }
      case 4: {  // zero or refill
        if (c.chance(1, 3)) {
          const int threads = c.range(0, 4);
          if (threads == 0) m->SetZero();
          else m->SetZero(Ctx(), threads);
          d.setZero();
          c.note() << " zero/" << threads;
        } else {
          const uint64_t seed = c.draw(1u << 20) + 1;
          for (int i = 0; i < d.rows(); ++i)
            for (int j = 0; j < d.cols(); ++j) if (d(i, j) != 0) d(i, j) = bg::Noise(seed, i * 100 + j);
          bg::Fill(d, m.get());
          c.note() << " fill";
        }
        ++writes;
        break;
      }
      case 5: {  // conversions
        auto crs = m->ToCompressedRowSparseMatrix();
        CheckCrs(c, *crs, d, "ToCompressedRowSparseMatrix");
        auto tcrs = m->ToCompressedRowSparseMatrixTranspose();
        CheckCrs(c, *tcrs, d.transpose(), "ToCompressedRowSparseMatrixTranspose");
        REQUIRE("crs-blocks", crs->col_blocks() == m->block_structure()->cols, "column blocks");
        REQUIRE("crs-blocks", tcrs->row_blocks() == m->block_structure()->cols, "row blocks of the transpose");
        REQUIRE("crs-nnz", crs->num_nonzeros() == m->num_nonzeros(), crs->num_nonzeros(), " vs ", m->num_nonzeros());
        crs->SetZero();
        tcrs->SetZero();
        m->UpdateCompressedRowSparseMatrix(crs.get());
        m->UpdateCompressedRowSparseMatrixTranspose(tcrs.get());
        CheckCrs(c, *crs, d, "UpdateCompressedRowSparseMatrix");
        CheckCrs(c, *tcrs, d.transpose(), "UpdateCompressedRowSparseMatrixTranspose");
        c.note() << " crs";
        break;
      }
      case 6: {
        TripletSparseMatrix t;
        m->ToTripletSparseMatrix(&t);
        REQUIRE("triplet", t.AllTripletsWithinBounds(), "triplets out of bounds");
        CheckReads(c, t, d);
        c.note() << " triplet";
        break;
      }
      case 7: CheckText(c, *m, d); break;
      default: CheckTransposeStructure(c, *m);
    }
    CheckReads(c, *m, d);
    int nnz = 0;
    for (auto& row : m->block_structure()->rows)
      for (auto& cell : row.cells) nnz += row.block.size * m->block_structure()->cols[cell.block_id].size;
    REQUIRE("nnz", m->num_nonzeros() == nnz, m->num_nonzeros(), " want ", nnz);
  }
  CheckTransposeStructure(c, *m);
  c.nontrivial(writes >= 2 && d.size() > 4);
}

// ------------------------------------------------------------ triplets
namespace {
std::unique_ptr<TripletSparseMatrix> GenTriplet(Case& c, int rows, int cols, bool repeats, Matrix* d) {
  *d = Matrix::Zero(rows, cols);
  std::vector<int> r, k;
  std::vector<double> v;
  std::set<std::pair<int, int>> seen;
  if (rows && cols) {
    const int n = c.size(0, 14);
    for (int i = 0; i < n; ++i) {
      const int a = c.range(0, rows - 1), b = c.range(0, cols - 1);
      if (!seen.insert({a, b}).second && !repeats) continue;
      const double x = c.range(-8, 8) / 4.0;
      r.push_back(a);
      k.push_back(b);
      v.push_back(x);
      (*d)(a, b) += x;
    }
  }
  if (c.coin()) return std::make_unique<TripletSparseMatrix>(rows, cols, r, k, v);
  auto t = std::make_unique<TripletSparseMatrix>(rows, cols, static_cast<int>(r.size()) + c.range(0, 3));
  std::copy(r.begin(), r.end(), t->mutable_rows());
  std::copy(k.begin(), k.end(), t->mutable_cols());
  std::copy(v.begin(), v.end(), t->mutable_values());
  t->set_num_nonzeros(static_cast<int>(r.size()));
  return t;
}
}  // namespace

PBT_PROP(triplet, 36000, 200000) {
  const bool repeats = c.chance(1, 3);
  int rows = c.size(0, 7), cols = c.size(0, 7);
  Matrix d;
  auto m = GenTriplet(c, rows, cols, repeats, &d);
  c.note() << rows << "x" << cols << " nnz " << m->num_nonzeros() << (repeats ? " repeated" : "") << " ops:";
  const int ops = c.size(1, 8);
  for (int k = 0; k < ops; ++k) {
    switch (c.range(0, 8)) {
      case 0: {
        Matrix e;
        const auto b = GenTriplet(c, c.range(0, 4), static_cast<int>(d.cols()), repeats, &e);
        m->AppendRows(*b);
        d = VStack(d, e);
        c.note() << " rows+" << e.rows();
        break;
      }
      case 1: {
        Matrix e;
        const auto b = GenTriplet(c, static_cast<int>(d.rows()), c.range(0, 4), repeats, &e);
        m->AppendCols(*b);
        d = HStack(d, e);
        c.note() << " cols+" << e.cols();
        break;
      }
      case 2: {
        const int nr = c.range(0, static_cast<int>(d.rows()) + 2), nc = c.range(0, static_cast<int>(d.cols()) + 2);
        m->Resize(nr, nc);
        Matrix nd = Matrix::Zero(nr, nc);
        const int a = std::min<int>(nr, d.rows()), b = std::min<int>(nc, d.cols());
        for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) nd(i, j) = d(i, j);
        d = nd;
        c.note() << " resize " << nr << "x" << nc;
        break;
      }
      case 3: m->Reserve(m->num_nonzeros() + c.range(0, 9)); c.note() << " reserve"; break;
      case 4: {
        TripletSparseMatrix copy(*m);
        TripletSparseMatrix other(2, 2, 1);
        other = copy;
        *m = other;
        c.note() << " copy";
        break;
      }
      case 5: {
        const Vector sc = bg::NoiseVector(c.draw(1u << 20) + 1, d.cols(), 0, 3);
        if (repeats) break;  // sums round differently
        m->ScaleColumns(P(sc));
        d = d * sc.asDiagonal();
        c.note() << " scale";
        break;
      }
      case 6: CheckText(c, *m, d); break;
      case 7: {
        if (repeats) break;
        auto crs = CompressedRowSparseMatrix::FromTripletSparseMatrix(*m);
        CheckCrs(c, *crs, d, "FromTripletSparseMatrix");
        CheckReads(c, *crs, d);
        crs = CompressedRowSparseMatrix::FromTripletSparseMatrixTransposed(*m);
        CheckCrs(c, *crs, d.transpose(), "FromTripletSparseMatrixTransposed");
        CRSMatrix plain;
        m->ToCRSMatrix(&plain);
        REQUIRE("to-crs", plain.num_rows == d.rows() && plain.num_cols == d.cols(), "size");
        Matrix got = Matrix::Zero(d.rows(), d.cols());
        for (int r = 0; r < plain.num_rows; ++r)
          for (int i = plain.rows[r]; i < plain.rows[r + 1]; ++i) got(r, plain.cols[i]) += plain.values[i];
        Same(c, "to-crs", got, d, "ToCRSMatrix");
        c.note() << " crs";
        break;
      }
      default: {
        DenseSparseMatrix e(*m);
        CheckReads(c, e, d);
        const Vector sc = bg::NoiseVector(c.draw(1u << 20) + 1, d.cols(), 0, 3);
        e.ScaleColumns(P(sc));
        CheckReads(c, e, d * sc.asDiagonal());
        CheckText(c, e, d * sc.asDiagonal());
        e.SetZero();
        CheckReads(c, e, Matrix::Zero(d.rows(), d.cols()));
        c.note() << " dense";
      }
    }
    REQUIRE("bounds", m->AllTripletsWithinBounds() && m->IsValid(), "triplets out of bounds");
    CheckReads(c, *m, d, !repeats);
  }
  if (c.chance(1, 8)) {
    char* buf = nullptr;
    size_t len = 0;
    FILE* f = open_memstream(&buf, &len);
    m->ToTextFile(f);
    std::fclose(f);
    if (len > 0) {
      f = fmemopen(buf, len, "r");
      auto back = TripletSparseMatrix::CreateFromTextFile(f);
      std::fclose(f);
      back->Resize(static_cast<int>(d.rows()), static_cast<int>(d.cols()));
      Matrix got;
      back->ToDenseMatrix(&got);
      for (int i = 0; i < d.rows(); ++i)
        for (int j = 0; j < d.cols(); ++j)
          REQUIRE("text-round-trip", std::fabs(got(i, j) - d(i, j)) <= 2e-6, i, ",", j, ": ", got(i, j), " want ", d(i, j));
    }
    std::free(buf);
  }
  const Vector diag = bg::NoiseVector(3, c.range(0, 5));
  CheckReads(c, *TripletSparseMatrix::CreateSparseDiagonalMatrix(P(diag), static_cast<int>(diag.size())),
             Matrix(diag.asDiagonal()));
  c.nontrivial(ops >= 2 && m->num_nonzeros() > 1);
}

// ------------------------------------------------------------ compressed rows
PBT_PROP(compressed_row, 36000, 200000) {
  const int rows = c.size(0, 7), cols = c.size(1, 7);
  const bool with_blocks = c.coin();
  Matrix d;
  auto t = GenTriplet(c, rows, cols, false, &d);
  auto m = CompressedRowSparseMatrix::FromTripletSparseMatrix(*t);
  c.note() << rows << "x" << cols << " nnz " << t->num_nonzeros() << (with_blocks ? " blocks" : "") << " ops:";
  std::vector<int> block_sizes;  // bottom rows are deleted blockwise
  const auto blocks_of = [](const std::vector<int>& sizes) {
    std::vector<Block> b;
    int pos = 0;
    for (int s : sizes) { b.emplace_back(s, pos); pos += s; }
    return b;
  };
  const auto split_rows = [&](int n) {
    std::vector<int> sizes;
    while (n > 0) { sizes.push_back(c.range(1, n)); n -= sizes.back(); }
    return sizes;
  };
  if (with_blocks && rows > 0) {
    block_sizes = split_rows(rows);
    *m->mutable_row_blocks() = blocks_of(block_sizes);
    *m->mutable_col_blocks() = blocks_of({cols});
  }
  const bool blocked = !block_sizes.empty();
  const int ops = c.size(1, 8);
  for (int k = 0; k < ops; ++k) {
    switch (c.range(0, 4)) {
      case 0: {
        if (blocked && block_sizes.empty()) break;  // would lose the block information
        Matrix e;
        auto b = CompressedRowSparseMatrix::FromTripletSparseMatrix(*GenTriplet(c, c.range(blocked ? 1 : 0, 4), cols, false, &e));
        if (blocked) {
          const auto sizes = split_rows(static_cast<int>(e.rows()));
          *b->mutable_row_blocks() = blocks_of(sizes);
          *b->mutable_col_blocks() = blocks_of({cols});
          block_sizes.insert(block_sizes.end(), sizes.begin(), sizes.end());
        }
        m->AppendRows(*b);
        d = VStack(d, e);
        c.note() << " append " << e.rows();
        break;
      }
      case 1: {
        int n;
        if (blocked) {
          const int nb = c.range(0, static_cast<int>(block_sizes.size()));
          n = 0;
          for (int i = 0; i < nb; ++i) { n += block_sizes.back(); block_sizes.pop_back(); }
        } else {
          n = c.range(0, static_cast<int>(d.rows()));
        }
        m->DeleteRows(n);
        d = Matrix(d.topRows(d.rows() - n));
        c.note() << " delete " << n;
        break;
      }
      case 2: {
        auto tr = m->Transpose();
        CheckCrs(c, *tr, d.transpose(), "Transpose");
        CheckReads(c, *tr, d.transpose());
        if (blocked && !block_sizes.empty()) {
          REQUIRE("transpose-blocks", tr->row_blocks() == m->col_blocks() && tr->col_blocks() == m->row_blocks(), "blocks");
        }
        auto back = tr->Transpose();
        CheckCrs(c, *back, d, "Transpose twice");
        c.note() << " transpose";
        break;
      }
      case 3: {
        const Vector sc = bg::NoiseVector(c.draw(1u << 20) + 1, cols, 0, 3);
        m->ScaleColumns(P(sc));
        d = d * sc.asDiagonal();
        c.note() << " scale";
        break;
      }
      default: {
        CRSMatrix plain;
        m->ToCRSMatrix(&plain);
        REQUIRE("to-crs", plain.num_rows == d.rows() && plain.num_cols == d.cols() &&
                              static_cast<int>(plain.rows.size()) == d.rows() + 1 &&
                              plain.cols.size() == plain.values.size() &&
                              plain.rows.back() == static_cast<int>(plain.cols.size()), "shape");
        Matrix got = Matrix::Zero(d.rows(), d.cols());
        for (int r = 0; r < plain.num_rows; ++r)
          for (int i = plain.rows[r]; i < plain.rows[r + 1]; ++i) got(r, plain.cols[i]) += plain.values[i];
        Same(c, "to-crs", got, d, "ToCRSMatrix");
        CheckText(c, *m, d);
        c.note() << " plain";
      }
    }
    CheckCrs(c, *m, d, "after an operation");
    CheckReads(c, *m, d);
    if (blocked) {
      REQUIRE("row-blocks", m->row_blocks().size() == block_sizes.size(), m->row_blocks().size(), " row blocks, want ", block_sizes.size());
      for (size_t i = 0; i < block_sizes.size(); ++i)
        REQUIRE("row-blocks", m->row_blocks()[i].size == block_sizes[i], "row block ", i);
    }
  }
  // diagonals
  const Vector diag = bg::NoiseVector(c.draw(1u << 20) + 1, c.range(0, 6));
  const int n = static_cast<int>(diag.size());
  CompressedRowSparseMatrix dm(P(diag), n);
  CheckCrs(c, dm, Matrix(diag.asDiagonal()), "diagonal constructor");
  CheckReads(c, dm, Matrix(diag.asDiagonal()));
  const auto bd = CompressedRowSparseMatrix::CreateBlockDiagonalMatrix(P(diag), blocks_of(split_rows(n)));
  CheckCrs(c, *bd, Matrix(diag.asDiagonal()), "CreateBlockDiagonalMatrix");
  c.nontrivial(ops >= 2 && t->num_nonzeros() > 1);
}

// A symmetric matrix stored as one block triangle.
PBT_PROP(symmetric_storage, 30000, 200000) {
  const int n = c.size(1, 5);
  const bool upper = c.coin();
  std::vector<Block> blocks;
  int pos = 0;
  for (int i = 0; i < n; ++i) { blocks.emplace_back(c.range(1, 4), pos); pos += blocks.back().size; }
  const uint64_t seed = c.draw(1u << 20) + 1;
  Matrix full = Matrix::Zero(pos, pos);
  std::vector<int> rows, cols;
  std::vector<double> values;
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) {
      if (!c.chance(2, 3)) continue;
      for (int a = 0; a < blocks[i].size; ++a)
        for (int b = 0; b < blocks[j].size; ++b) {
          const int r = blocks[i].position + a, k = blocks[j].position + b;
          const double v = bg::Noise(seed, std::min(r, k) * 100 + std::max(r, k));
          full(r, k) = full(k, r) = v;
          rows.push_back(upper ? r : k);
          cols.push_back(upper ? k : r);
          values.push_back(v);
        }
    }
  TripletSparseMatrix t(pos, pos, rows, cols, values);
  auto m = CompressedRowSparseMatrix::FromTripletSparseMatrix(t);
  m->set_storage_type(upper ? CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR
                            : CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR);
  c.note() << n << " blocks, size " << pos << (upper ? " upper" : " lower");
  const auto check = [&](const CompressedRowSparseMatrix& a) {
    const int threads = c.range(1, 4);
    const Vector x = bg::NoiseVector(seed, pos, 1), y0 = bg::NoiseVector(seed, pos, 2);
    const Vector want = y0 + full * x;
    const Vector mag = y0.cwiseAbs() + full.cwiseAbs() * x.cwiseAbs();
    Vector y = y0;
    a.RightMultiplyAndAccumulate(x.data(), y.data());
    Near(c, "symmetric-right", y, want, mag, "S x");
    y = y0;
    a.RightMultiplyAndAccumulate(x.data(), y.data(), Ctx(), threads);
    Near(c, "symmetric-right", y, want, mag, "S x, threads");
    y = y0;
    a.LeftMultiplyAndAccumulate(x.data(), y.data());
    Near(c, "symmetric-left", y, want, mag, "S'x");
    y.setConstant(3);
    a.SquaredColumnNorm(y.data());
    const Vector norms = full.colwise().squaredNorm();
    Near(c, "symmetric-norm", y, norms, norms, "column norms");
  };
  check(*m);
  const auto tr = m->Transpose();
  REQUIRE("symmetric-transpose", tr->storage_type() == (upper ? CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR
                                                              : CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR),
          "storage type of the transpose");
  check(*tr);
  // the same triangle as random-access blocks
  absl::btree_set<std::pair<int, int>> pairs;
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j)
      if (i == j || full.block(blocks[i].position, blocks[j].position, blocks[i].size, blocks[j].size).squaredNorm() > 0)
        pairs.emplace(i, j);
  const int threads = c.range(1, 4);
  BlockRandomAccessSparseMatrix sparse(blocks, pairs, Ctx(), threads);
  BlockRandomAccessDenseMatrix dense(blocks, Ctx(), threads);
  REQUIRE("random-access", sparse.num_rows() == pos && sparse.num_cols() == pos && dense.num_rows() == pos, "size");
  sparse.SetZero();
  dense.SetZero();
  const std::vector<int> order = c.permutation(n);
  for (int i : order)
    for (int j = 0; j < n; ++j) {
      for (int which = 0; which < 2; ++which) {
        BlockRandomAccessMatrix* a = which ? static_cast<BlockRandomAccessMatrix*>(&dense) : &sparse;
        int r, k, rs, cs;
        CellInfo* cell = a->GetCell(i, j, &r, &k, &rs, &cs);
        const bool want = which || pairs.count({i, j});
        REQUIRE("random-access", (cell != nullptr) == want, "cell ", i, ",", j, which ? " dense" : " sparse");
        if (cell == nullptr) continue;
        MatrixRef ref(cell->values, rs, cs);
        REQUIRE("random-access", r + blocks[i].size <= rs && k + blocks[j].size <= cs, "cell ", i, ",", j, " outside");
        auto b = ref.block(r, k, blocks[i].size, blocks[j].size);
        REQUIRE("random-access", b.squaredNorm() == 0, "cell ", i, ",", j, " overlaps another");
        b += full.block(blocks[i].position, blocks[j].position, blocks[i].size, blocks[j].size);
      }
    }
  const Vector x = bg::NoiseVector(seed, pos, 5), y0 = bg::NoiseVector(seed, pos, 6);
  Vector y = y0;
  sparse.SymmetricRightMultiplyAndAccumulate(x.data(), y.data());
  Near(c, "random-access", y, y0 + full * x, y0.cwiseAbs() + full.cwiseAbs() * x.cwiseAbs(), "symmetric product");
  Matrix got;
  sparse.matrix()->ToDenseMatrix(&got);
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) {
      const auto& a = blocks[i];
      const auto& b = blocks[j];
      Same(c, "random-access", got.block(a.position, b.position, a.size, b.size), full.block(a.position, b.position, a.size, b.size), "sparse block");
    }
  Same(c, "random-access", Matrix(ConstMatrixRef(dense.values(), pos, pos)), full, "dense values");
  sparse.SetZero();
  dense.SetZero();
  sparse.matrix()->ToDenseMatrix(&got);
  REQUIRE("random-access", got.squaredNorm() == 0 && ConstMatrixRef(dense.values(), pos, pos).squaredNorm() == 0, "SetZero");
  c.nontrivial(n >= 2 && values.size() > 3);
}

// Block diagonal random-access matrix: products and inversion.
PBT_PROP(block_diagonal, 30000, 200000) {
  const int n = c.size(1, 9);
  const int threads = c.range(1, 4);
  std::vector<Block> blocks;
  int pos = 0;
  for (int i = 0; i < n; ++i) { blocks.emplace_back(c.range(1, 5), pos); pos += blocks.back().size; }
  BlockRandomAccessDiagonalMatrix m(blocks, Ctx(), threads);
  Matrix d = Matrix::Zero(pos, pos);
  m.SetZero();
  const uint64_t seed = c.draw(1u << 20) + 1;
  for (int i = 0; i < n; ++i) {
    const int s = blocks[i].size;
    Matrix b(s + 1, s);
    for (int a = 0; a < b.size(); ++a) b.data()[a] = bg::Noise(seed, i * 100 + a);
    const Matrix spd = b.transpose() * b + 0.1 * Matrix::Identity(s, s);
    d.block(blocks[i].position, blocks[i].position, s, s) = spd;
    for (int j = 0; j < n; ++j) {
      int r, k, rs, cs;
      CellInfo* cell = m.GetCell(i, j, &r, &k, &rs, &cs);
      REQUIRE("cell", (cell != nullptr) == (i == j), "cell ", i, ",", j);
      if (i == j) MatrixRef(cell->values, rs, cs).block(r, k, s, s) += spd;
    }
  }
  c.note() << n << " blocks, " << pos << " rows, " << threads << " threads";
  const Vector x = bg::NoiseVector(seed, pos, 1), y0 = bg::NoiseVector(seed, pos, 2);
  Vector y = y0;
  m.RightMultiplyAndAccumulate(x.data(), y.data());
  Near(c, "product", y, y0 + d * x, y0.cwiseAbs() + d.cwiseAbs() * x.cwiseAbs(), "D x");
  Matrix md;
  m.matrix()->ToDenseMatrix(&md);
  Same(c, "matrix", md, d, "matrix()");
  m.Invert();
  Vector z = Vector::Zero(pos);
  m.RightMultiplyAndAccumulate(x.data(), z.data());
  const Vector back = d * z;
  for (int i = 0; i < pos; ++i)
    REQUIRE("inverse", std::fabs(back[i] - x[i]) <= 1e-11 * (1 + x.norm()), "D (D^-1 x) [", i, "] = ", back[i], " want ", x[i]);
  c.nontrivial(n >= 2);
}

// ------------------------------------------------------------ dynamic rows
PBT_PROP(dynamic, 30000, 200000) {
  const int rows = c.size(1, 6), cols = c.size(1, 6);
  DynamicCompressedRowSparseMatrix m(rows, cols, c.range(0, 5));
  std::vector<std::vector<std::pair<int, double>>> model(rows);
  c.note() << rows << "x" << cols << ":";
  const int rounds = c.range(1, 4);
  int inserted = 0;
  for (int k = 0; k < rounds; ++k) {
    const int ops = c.size(0, 12);
    for (int i = 0; i < ops; ++i) {
      if (c.chance(1, 5)) {
        const int a = c.range(0, rows), b = c.range(0, rows - a);
        m.ClearRows(a, b);
        for (int r = a; r < a + b; ++r) model[r].clear();
        c.note() << " clear(" << a << "," << b << ")";
      } else {
        const int r = c.range(0, rows - 1), j = c.range(0, cols - 1);
        bool used = false;
        for (auto& e : model[r]) used = used || e.first == j;
        if (used) continue;
        const double v = c.range(-8, 8) / 4.0;
        m.InsertEntry(r, j, v);
        model[r].push_back({j, v});
        ++inserted;
      }
    }
    const int extra = c.range(0, 4);
    m.Finalize(extra);
    c.note() << " finalize";
    Matrix d = Matrix::Zero(rows, cols);
    int nnz = 0;
    for (int r = 0; r < rows; ++r) {
      REQUIRE("rows", m.rows()[r] == nnz, "row ", r, " starts at ", m.rows()[r], " want ", nnz);
      for (auto& e : model[r]) {
        REQUIRE("entry", m.cols()[nnz] == e.first && m.values()[nnz] == e.second, "entry ", nnz);
        d(r, e.first) = e.second;
        ++nnz;
      }
    }
    REQUIRE("nnz", m.num_nonzeros() == nnz, m.num_nonzeros(), " want ", nnz);
    CheckReads(c, m, d);
    // room for the extra elements, as the dynamic solver uses it
    const Vector diag = bg::NoiseVector(3, cols);
    CompressedRowSparseMatrix reg(P(diag), cols);
    m.AppendRows(reg);
    const Matrix nd = VStack(d, Matrix(diag.asDiagonal()));
    Matrix got;
    m.ToDenseMatrix(&got);
    Same(c, "append", got, nd, "append to a finalized matrix");
    m.DeleteRows(cols);
    CheckReads(c, m, d);
  }
  c.nontrivial(rounds > 1 && inserted > 2);
}

// ------------------------------------------------------------ inner products
PBT_PROP(inner_product, 45000, 300000) {
  bg::Options o;
  o.allow_empty_rows = true;
  bg::Spec s = bg::Gen(c, o);
  if (s.nnz() == 0) c.discard();
  Matrix d = bg::Dense(s);
  auto m = bg::Build(s, d);
  const bool upper = c.coin();
  const int nrows = static_cast<int>(s.rows.size());
  int begin = 0, end = nrows;
  if (c.coin()) { begin = c.range(0, nrows); end = c.range(begin, nrows); }
  const auto type = upper ? CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR
                          : CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR;
  c.note() << s.Describe() << (upper ? " upper" : " lower") << " rows " << begin << ".." << end;
  auto ip = (begin == 0 && end == nrows && c.coin()) ? InnerProductComputer::Create(*m, type)
                                                    : InnerProductComputer::Create(*m, begin, end, type);
  const int repeats = c.range(1, 3);
  for (int k = 0; k < repeats; ++k) {
    if (k > 0) {
      s.seed += 17;
      d = bg::Dense(s);
      bg::Fill(d, m.get());
    }
    ip->Compute();
    int r0 = 0, r1 = 0;
    for (int i = 0; i < end; ++i) (i < begin ? r0 : r1) += s.rows[i].size;
    const Matrix sub = d.middleRows(r0, r1);
    const Matrix want = sub.transpose() * sub, mag = sub.cwiseAbs().transpose() * sub.cwiseAbs();
    const auto& got = ip->result();
    REQUIRE("storage", got.storage_type() == type, "storage type");
    REQUIRE("size", got.num_rows() == d.cols() && got.num_cols() == d.cols(), "size");
    Matrix g;
    got.ToDenseMatrix(&g);
    // which block pairs are present
    int p = 0;
    std::vector<int> block_of;
    for (size_t b = 0; b < s.cols.size(); ++b) for (int q = 0; q < s.cols[b]; ++q, ++p) block_of.push_back(static_cast<int>(b));
    for (int i = 0; i < g.rows(); ++i)
      for (int j = 0; j < g.cols(); ++j) {
        const bool stored = upper ? block_of[i] <= block_of[j] : block_of[i] >= block_of[j];
        const double w = stored ? want(i, j) : 0.0;
        REQUIRE("value", std::fabs(g(i, j) - w) <= 1e-14 * (mag(i, j) + 1e-300) * (1 + r1), "(", i, ",", j, ") = ", g(i, j), " want ", w);
      }
    for (int r = 0; r < got.num_rows(); ++r)
      for (int i = got.rows()[r] + 1; i < got.rows()[r + 1]; ++i)
        REQUIRE("sorted", got.cols()[i] > got.cols()[i - 1], "row ", r, " unsorted or repeated");
    REQUIRE("blocks", got.row_blocks() == m->block_structure()->cols && got.col_blocks() == m->block_structure()->cols, "blocks");
  }
  c.nontrivial(s.cols.size() >= 2 && end - begin >= 2);
}

// ------------------------------------------------------------ compressed columns
PBT_PROP(compressed_col_utils, 45000, 300000) {
  // scalar to block structure
  const int nr = c.size(1, 5), nc = c.size(1, 5);
  std::vector<Block> rb, cb;
  int rows = 0, cols = 0;
  for (int i = 0; i < nr; ++i) { rb.emplace_back(c.range(1, 3), rows); rows += rb.back().size; }
  for (int i = 0; i < nc; ++i) { cb.emplace_back(c.range(1, 3), cols); cols += cb.back().size; }
  std::vector<int> srows, scols{0}, want_rows, want_cols{0};
  for (int j = 0; j < nc; ++j) {
    std::vector<int> present;
    for (int i = 0; i < nr; ++i) if (c.coin()) present.push_back(i);
    for (int k = 0; k < cb[j].size; ++k) {
      for (int i : present) for (int a = 0; a < rb[i].size; ++a) srows.push_back(rb[i].position + a);
      scols.push_back(static_cast<int>(srows.size()));
    }
    want_rows.insert(want_rows.end(), present.begin(), present.end());
    want_cols.push_back(static_cast<int>(want_rows.size()));
  }
  std::vector<int> brows, bcols;
  CompressedColumnScalarMatrixToBlockMatrix(srows.data(), scols.data(), rb, cb, &brows, &bcols);
  REQUIRE("scalar-to-block", brows == want_rows && bcols == want_cols, "block structure");
  // ordering
  const std::vector<int> order = c.permutation(nr);
  std::vector<int> scalar, want;
  BlockOrderingToScalarOrdering(rb, order, &scalar);
  for (int b : order) for (int a = 0; a < rb[b].size; ++a) want.push_back(rb[b].position + a);
  REQUIRE("ordering", scalar == want, "scalar ordering");
  // triangular solves
  const int n = c.size(1, 7);
  Matrix R = Matrix::Zero(n, n);
  std::vector<int> rr, rc{0};
  std::vector<double> rv;
  const uint64_t seed = c.draw(1u << 20) + 1;
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i <= j; ++i) {
      if (i < j && !c.chance(3, 5)) continue;
      R(i, j) = i == j ? 1.5 + bg::Noise(seed, i) : bg::Noise(seed, 100 + i * 10 + j);
      rr.push_back(i);
      rv.push_back(R(i, j));
    }
    rc.push_back(static_cast<int>(rr.size()));
  }
  const Vector b = bg::NoiseVector(seed, n, 3);
  Vector x = b;
  SolveUpperTriangularInPlace<int>(n, rr.data(), rc.data(), rv.data(), x.data());
  REQUIRE("upper-solve", (R * x - b).norm() <= 1e-12 * (1 + R.norm() * x.norm()), "R x - b = ", (R * x - b).norm());
  x = b;
  SolveUpperTriangularTransposeInPlace<int>(n, rr.data(), rc.data(), rv.data(), x.data());
  REQUIRE("upper-transpose-solve", (R.transpose() * x - b).norm() <= 1e-12 * (1 + R.norm() * x.norm()), "R'x - b");
  const int idx = c.range(0, n - 1);
  x.setConstant(5);
  SolveRTRWithSparseRHS<int>(n, rr.data(), rc.data(), rv.data(), idx, x.data());
  const Vector res = R.transpose() * (R * x) - Vector::Unit(n, idx);
  REQUIRE("rtr-solve", res.norm() <= 1e-12 * (1 + R.squaredNorm() * x.norm()), "R'R x - e = ", res.norm());
  c.note() << nr << "x" << nc << " blocks, triangular " << n << " unit " << idx;
  c.nontrivial(nr > 1 && nc > 1 && n > 1);
}

PBT_MAIN("C18", "a history with at least two writes, or a structure with at least two blocks")
