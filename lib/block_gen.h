// Generator of block-structured sparse matrices, with a dense double of each.
#ifndef VERIF_BLOCK_GEN_H_
#define VERIF_BLOCK_GEN_H_

#include <algorithm>
#include <memory>
#include <numeric>
#include <string>
#include <vector>

#include "Eigen/Dense"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/internal/eigen.h"
#include "pbt.h"

namespace bg {

using ceres::Matrix;
using ceres::Vector;
using ceres::internal::BlockSparseMatrix;
using ceres::internal::CompressedRowBlockStructure;

using LD = long double;
using LMatrix = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using LVector = Eigen::Matrix<LD, Eigen::Dynamic, 1>;

struct Row {
  int size = 1;
  std::vector<int> cells;  // sorted column block ids
};

struct Spec {
  std::vector<int> cols;   // column block sizes
  int num_e = 0;           // the leading num_e columns may be eliminated
  std::vector<Row> rows;   // rows with an e block first, grouped by e block
  bool split = false;      // values of the e cells first, then of the f cells
  uint64_t seed = 1;       // determines the numerical values
  int style = 0;           // see Value()

  int num_rows() const { int n = 0; for (auto& r : rows) n += r.size; return n; }
  int num_cols() const { return std::accumulate(cols.begin(), cols.end(), 0); }
  int num_cols_e() const { return std::accumulate(cols.begin(), cols.begin() + num_e, 0); }
  int nnz() const {
    int n = 0;
    for (auto& r : rows) for (int c : r.cells) n += r.size * cols[c];
    return n;
  }
  std::string Describe() const {
    std::ostringstream os;
    os << "cols[";
    for (size_t i = 0; i < cols.size(); ++i) os << (i == (size_t)num_e && i ? "|" : i ? "," : "") << cols[i];
    os << "] rows[";
    for (size_t i = 0; i < rows.size(); ++i) {
      os << (i ? " " : "") << rows[i].size << ":";
      for (size_t k = 0; k < rows[i].cells.size(); ++k) os << (k ? "," : "") << rows[i].cells[k];
    }
    os << "]" << (split ? " split" : "") << " e=" << num_e << " seed " << seed << "/" << style;
    return os.str();
  }
};

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
// A pseudo-random number in [-1, 1], a pure function of its arguments.
inline double Noise(uint64_t seed, uint64_t i, uint64_t salt = 0) {
  const uint64_t h = Mix(seed * 0x100000001b3ull + Mix(i + 0x51ull * salt));
  return static_cast<double>(static_cast<int64_t>(h >> 11)) / static_cast<double>(1ull << 52) - 1.0;
}
inline Vector NoiseVector(uint64_t seed, int n, uint64_t salt = 0, double scale = 1) {
  Vector v(n);
  for (int i = 0; i < n; ++i) v[i] = scale * Noise(seed, i, salt);
  return v;
}
// style 0: uniform in [-1,1]; 1: small integers (exact products, with zeros);
// 2: uniform with columns of different magnitudes.
inline double Value(const Spec& s, int row, int col) {
  const double u = Noise(s.seed, static_cast<uint64_t>(row) * 1000003u + col, 7);
  switch (s.style) {
    case 1: return std::floor(u * 4.5);
    case 2: return u * std::pow(10.0, std::floor(Noise(s.seed, col, 9) * 2.999));
    default: return u;
  }
}

// The dense matrix.
inline Matrix Dense(const Spec& s) {
  Matrix m = Matrix::Zero(s.num_rows(), s.num_cols());
  std::vector<int> pos(s.cols.size());
  for (size_t i = 1; i < pos.size(); ++i) pos[i] = pos[i - 1] + s.cols[i - 1];
  int r0 = 0;
  for (auto& r : s.rows) {
    for (int c : r.cells)
      for (int i = 0; i < r.size; ++i)
        for (int j = 0; j < s.cols[c]; ++j) m(r0 + i, pos[c] + j) = Value(s, r0 + i, pos[c] + j);
    r0 += r.size;
  }
  return m;
}

inline std::unique_ptr<CompressedRowBlockStructure> Structure(const Spec& s) {
  auto bs = std::make_unique<CompressedRowBlockStructure>();
  int pos = 0;
  for (int c : s.cols) { bs->cols.emplace_back(c, pos); pos += c; }
  int r0 = 0, cursor = 0, e_total = 0;
  if (s.split)
    for (auto& r : s.rows) for (int c : r.cells) if (c < s.num_e) e_total += r.size * s.cols[c];
  int e_cursor = 0, f_cursor = e_total;
  for (auto& r : s.rows) {
    bs->rows.emplace_back(static_cast<int>(r.cells.size()));
    auto& row = bs->rows.back();
    row.block.size = r.size;
    row.block.position = r0;
    r0 += r.size;
    for (size_t k = 0; k < r.cells.size(); ++k) {
      int& cur = s.split ? (r.cells[k] < s.num_e ? e_cursor : f_cursor) : cursor;
      row.cells[k].block_id = r.cells[k];
      row.cells[k].position = cur;
      cur += r.size * s.cols[r.cells[k]];
    }
  }
  return bs;
}

// Copies the dense values into the cells of m (the block structure decides
// where they live).
inline void Fill(const Matrix& dense, BlockSparseMatrix* m) {
  const auto* bs = m->block_structure();
  double* v = m->mutable_values();
  for (auto& row : bs->rows)
    for (auto& cell : row.cells) {
      const auto& col = bs->cols[cell.block_id];
      for (int i = 0; i < row.block.size; ++i)
        for (int j = 0; j < col.size; ++j)
          v[cell.position + i * col.size + j] = dense(row.block.position + i, col.position + j);
    }
}
inline std::unique_ptr<BlockSparseMatrix> Build(const Spec& s, const Matrix& dense) {
  auto m = std::make_unique<BlockSparseMatrix>(Structure(s).release());
  Fill(dense, m.get());
  return m;
}

struct Options {
  int min_cols = 1, max_cols = 6;
  int max_col_size = 5;
  int max_rows = 12;
  int max_row_size = 4;
  bool schur = false;             // rows grouped by e block, num_e >= 1
  bool need_f = false;            // schur: at least one f block
  bool allow_empty_rows = false;  // row blocks without cells
  bool determined = false;        // add rows until every block can have full rank
  bool common_sizes = false;      // often use the sizes the code specialises
  bool allow_zero_f_only = true;  // schur: rows without an e block
};

inline Spec Gen(pbt::Case& c, const Options& o) {
  Spec s;
  int row_size = 0, e_size = 0, f_size = 0;  // 0: varying
  const int n = c.size(std::max(o.min_cols, o.need_f ? 2 : 1), o.max_cols);
  s.num_e = o.schur ? c.range(1, o.need_f ? n - 1 : n) : c.range(0, n);
  if (o.common_sizes) {
    row_size = c.chance(3, 4) ? c.pick({2, 2, 2, 3, 4, 1}) : 0;
    e_size = c.chance(3, 4) ? c.pick({3, 2, 4, 1, 5}) : 0;
    f_size = c.chance(3, 4) ? c.pick({6, 3, 4, 9, 8, 2, 5, 1}) : 0;
  } else if (c.chance(1, 4)) {
    row_size = c.range(1, o.max_row_size);
    e_size = f_size = c.range(1, o.max_col_size);
  }
  for (int i = 0; i < n; ++i) {
    const int fixed = i < s.num_e ? e_size : f_size;
    s.cols.push_back(fixed ? fixed : c.range(1, o.max_col_size));
  }
  const auto rsize = [&] { return row_size ? row_size : c.range(1, o.max_row_size); };
  const auto fcells = [&](int lo, std::vector<int>* cells, bool at_least_one) {
    const int begin = s.num_e;
    const int nf = n - begin;
    (void)lo;
    if (nf == 0) return;
    const int density = c.range(1, 4);
    for (int k = begin; k < n; ++k) if (c.chance(density, 5)) cells->push_back(k);
    if (cells->empty() && at_least_one) cells->push_back(begin + c.range(0, nf - 1));
  };
  if (o.schur) {
    // Chunks: every e block has at least one row (as the reduced program
    // guarantees), then rows with f blocks only.
    for (int e = 0; e < s.num_e; ++e) {
      int rows = c.range(1, 4);
      int total = 0;
      const int per = std::max(1, o.max_rows / std::max(1, s.num_e));
      rows = std::min(rows, per);
      for (int k = 0; k < rows || (o.determined && total < s.cols[e] + 1); ++k) {
        Row r;
        r.size = rsize();
        r.cells.push_back(e);
        fcells(0, &r.cells, false);
        total += r.size;
        s.rows.push_back(r);
      }
    }
    if (n > s.num_e && o.allow_zero_f_only) {
      const int rows = c.chance(1, 3) ? 0 : c.size(0, std::max(0, o.max_rows / 2));
      for (int k = 0; k < rows; ++k) {
        Row r;
        r.size = rsize();
        fcells(0, &r.cells, true);
        s.rows.push_back(r);
      }
    }
    // every f block occurs somewhere
    for (int f = s.num_e; f < n; ++f) {
      bool seen = false;
      for (auto& r : s.rows) seen = seen || std::count(r.cells.begin(), r.cells.end(), f);
      if (!seen) {
        Row& r = s.rows[c.range(0, static_cast<int>(s.rows.size()) - 1)];
        r.cells.push_back(f);
        std::sort(r.cells.begin(), r.cells.end());
      }
    }
    s.split = c.coin();
  } else {
    const int rows = c.size(1, o.max_rows);
    for (int k = 0; k < rows; ++k) {
      Row r;
      r.size = rsize();
      if (!(o.allow_empty_rows && c.chance(1, 8))) {
        const int density = c.range(1, 4);
        for (int j = 0; j < n; ++j) if (c.chance(density, 5)) r.cells.push_back(j);
        if (r.cells.empty()) r.cells.push_back(c.range(0, n - 1));
      }
      s.rows.push_back(r);
    }
    s.split = o.allow_empty_rows ? c.coin() : false;
  }
  if (o.determined) {
    // rows that involve each column block on their own make A'A positive
    // definite with overwhelming probability
    for (int j = o.schur ? s.num_e : 0; j < n; ++j) {
      int have = 0;
      for (auto& r : s.rows)
        if (std::count(r.cells.begin(), r.cells.end(), j)) have += r.size;
      if (o.schur && !o.allow_zero_f_only) continue;
      while (have < s.cols[j] + 1 || c.chance(1, 8)) {
        Row r;
        r.size = rsize();
        r.cells.push_back(j);
        have += r.size;
        s.rows.push_back(r);
      }
    }
  }
  s.seed = c.draw((1u << 30) - 1) + 1;
  s.style = c.pick({0, 0, 1, 2});
  return s;
}

}  // namespace bg

#endif  // VERIF_BLOCK_GEN_H_
