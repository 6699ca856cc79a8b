// C05: histories of operations on every matrix type, each compared with a dense model.
#include <memory>
#include <set>

#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/inner_product_computer.h"
#include "ceres/triplet_sparse_matrix.h"
#include "prob.h"

namespace {

using namespace ceres::internal;
using wl::Mat;
using wl::Vec;
using Storage = CompressedRowSparseMatrix::StorageType;

Vec Rnd(int n) {
  sim::Quiet q;
  Vec v(n);
  for (int i = 0; i < n; ++i) v[i] = sim::Uniform(-2, 2);
  return v;
}

void Same(const Vec& a, const Vec& b, const char* kind, const char* what) {
  sim::Quiet q;
  SIM_CHECK(a.size() == b.size(), kind, "%s: %d entries instead of %d", what, (int)a.size(), (int)b.size());
  const double scale = 1 + (b.size() ? b.lpNorm<Eigen::Infinity>() : 0);
  for (int i = 0; i < a.size(); ++i) SIM_CHECK(std::abs(a[i] - b[i]) <= 1e-11 * scale, kind, "%s: entry %d is %.17g, the model has %.17g", what, i, a[i], b[i]);
}

void Same(const Mat& a, const Mat& b, const char* kind, const char* what) {
  sim::Quiet q;
  SIM_CHECK(a.rows() == b.rows() && a.cols() == b.cols(), kind, "%s: %dx%d instead of %dx%d", what, (int)a.rows(), (int)a.cols(), (int)b.rows(), (int)b.cols());
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) SIM_CHECK(std::abs(a(i, j) - b(i, j)) <= 1e-11 * (1 + std::abs(b(i, j))), kind, "%s: entry (%d,%d) is %.17g, the model has %.17g", what, i, j, a(i, j), b(i, j));
}

Mat DenseOf(const SparseMatrix& m) {
  ceres::Matrix d = ceres::Matrix::Constant(2, 3, 9.0);
  m.ToDenseMatrix(&d);
  return d;
}

// Everything that can be asked of a matrix, against its model.
void Observe(SparseMatrix* m, const Mat& model, ContextImpl* context, int threads, const char* what) {
  char s[160];
  auto say = [&](const char* op) {
    snprintf(s, sizeof(s), "%s: %s", what, op);
    return s;
  };
  SIM_CHECK(m->num_rows() == model.rows() && m->num_cols() == model.cols(), "matrix-size", "%s is %dx%d instead of %dx%d", what, m->num_rows(), m->num_cols(), (int)model.rows(), (int)model.cols());
  Same(DenseOf(*m), model, "matrix-values", what);
  const Vec x = Rnd(m->num_cols()), y0 = Rnd(m->num_rows());
  Vec y = y0;
  if (sim::Chance(50)) m->RightMultiplyAndAccumulate(x.data(), y.data());
  else m->RightMultiplyAndAccumulate(x.data(), y.data(), context, threads);
  Same(y, y0 + model * x, "matrix-right-multiply", say("y += A x"));
  Vec z = x;
  if (sim::Chance(50)) m->LeftMultiplyAndAccumulate(y0.data(), z.data());
  else static_cast<LinearOperator*>(m)->LeftMultiplyAndAccumulate(y0.data(), z.data(), context, threads);
  Same(z, x + model.transpose() * y0, "matrix-left-multiply", say("y += A' x"));
  Vec n = Vec::Constant(m->num_cols(), 5);
  if (sim::Chance(50)) m->SquaredColumnNorm(n.data());
  else m->SquaredColumnNorm(n.data(), context, threads);
  Same(n, model.colwise().squaredNorm().transpose(), "matrix-column-norm", say("squared column norms"));
}

void Scale(SparseMatrix* m, Mat* model, ContextImpl* context, int threads) {
  const Vec s = Rnd(m->num_cols());
  if (sim::Chance(50)) m->ScaleColumns(s.data());
  else m->ScaleColumns(s.data(), context, threads);
  *model = *model * s.asDiagonal();
}

void Zero(SparseMatrix* m, Mat* model, ContextImpl* context, int threads) {
  if (sim::Chance(50)) m->SetZero();
  else m->SetZero(context, threads);
  model->setZero();
}

// The arrays of a compressed row matrix are well formed.
void WellFormed(const CompressedRowSparseMatrix& m, const char* what) {
  sim::Quiet q;
  SIM_CHECK(m.rows()[0] == 0, "crs-structure", "%s: the first row starts at %d", what, m.rows()[0]);
  for (int r = 0; r < m.num_rows(); ++r) {
    SIM_CHECK(m.rows()[r] <= m.rows()[r + 1], "crs-structure", "%s: row %d has a negative length", what, r);
    for (int i = m.rows()[r]; i < m.rows()[r + 1]; ++i) SIM_CHECK(m.cols()[i] >= 0 && m.cols()[i] < m.num_cols(), "crs-structure", "%s: row %d names column %d of %d", what, r, m.cols()[i], m.num_cols());
  }
  SIM_CHECK(m.num_nonzeros() == m.rows()[m.num_rows()], "crs-structure", "%s: number of entries", what);
  auto blocks = [&](const std::vector<Block>& b, int n, const char* which) {
    int total = 0;
    for (auto& x : b) total += x.size;
    SIM_CHECK(b.empty() || total == n, "crs-structure", "%s: its %s blocks cover %d of %d", what, which, total, n);
  };
  blocks(m.row_blocks(), m.num_rows(), "row");
  blocks(m.col_blocks(), m.num_cols(), "column");
}

std::vector<int> DrawSizes(int lo, int hi, int most) {
  std::vector<int> s(sim::Range(lo, hi));
  for (int& v : s) v = sim::Range(1, most);
  return s;
}

std::vector<Block> Blocks(const std::vector<int>& sizes) {
  std::vector<Block> b;
  int p = 0;
  for (int s : sizes) {
    b.emplace_back(s, p);
    p += s;
  }
  return b;
}

int Total(const std::vector<int>& s) {
  int t = 0;
  for (int v : s) t += v;
  return t;
}

// Row blocks one after the other, with any cells (or none) in each.
std::unique_ptr<BlockSparseMatrix> DrawBlockSparse(const std::vector<int>& cols, int lo, int hi, Mat* model) {
  sim::Quiet q;
  auto* bs = new CompressedRowBlockStructure;
  bs->cols = Blocks(cols);
  const std::vector<Block> rows = Blocks(DrawSizes(lo, hi, 4));
  int value = 0, m = 0, cumulative = 0;
  const int density = sim::Range(15, 100);
  for (auto& b : rows) {
    bs->rows.emplace_back();
    auto& r = bs->rows.back();
    r.block = b;
    r.nnz = 0;
    for (size_t c = 0; c < cols.size(); ++c)
      if (sim::Chance(density)) {
        r.cells.emplace_back(static_cast<int>(c), value);
        value += b.size * cols[c];
        r.nnz += b.size * cols[c];
      }
    cumulative += r.nnz;
    r.cumulative_nnz = cumulative;
    m += b.size;
  }
  *model = Mat::Zero(m, Total(cols));
  auto A = std::make_unique<BlockSparseMatrix>(bs);
  for (auto& r : bs->rows)
    for (auto& c : r.cells)
      for (int i = 0; i < r.block.size; ++i)
        for (int j = 0; j < bs->cols[c.block_id].size; ++j) (*model)(r.block.position + i, bs->cols[c.block_id].position + j) = A->mutable_values()[c.position + i * bs->cols[c.block_id].size + j] = sim::Uniform(-2, 2);
  return A;
}

// New values in place; the structure stays.
void Refill(BlockSparseMatrix* A, Mat* model) {
  sim::Quiet q;
  const auto* bs = A->block_structure();
  for (auto& r : bs->rows)
    for (auto& c : r.cells)
      for (int i = 0; i < r.block.size; ++i)
        for (int j = 0; j < bs->cols[c.block_id].size; ++j) (*model)(r.block.position + i, bs->cols[c.block_id].position + j) = A->mutable_values()[c.position + i * bs->cols[c.block_id].size + j] = sim::Uniform(-2, 2);
}

void BlockSparse(ContextImpl* context, int threads) {
  const std::vector<int> cols = DrawSizes(1, 9, 4);
  Mat model;
  std::unique_ptr<BlockSparseMatrix> A = DrawBlockSparse(cols, 1, 12, &model);
  std::vector<int> row_sizes;
  for (auto& r : A->block_structure()->rows) row_sizes.push_back(r.block.size);
  if (sim::Chance(70)) A->AddTransposeBlockStructure();
  std::unique_ptr<CompressedRowSparseMatrix> crs, crst;  // of the same structure
  std::unique_ptr<InnerProductComputer> ip;
  int ip_first = 0, ip_last = 0;
  Storage ip_storage = Storage::UPPER_TRIANGULAR;
  const int ops = sim::Range(2, 9);
  for (int k = 0; k < ops; ++k) {
    const int op = static_cast<int>(sim::Draw(9));
    sim::Event("block sparse operation %d", op);
    bool reshaped = false;
    switch (op) {
      case 0: {
        Mat more;
        auto B = sim::Chance(60) ? DrawBlockSparse(cols, 1, 5, &more) : nullptr;
        if (!B) {
          const Vec d = Rnd(Total(cols));
          more = d.asDiagonal();
          B = BlockSparseMatrix::CreateDiagonalMatrix(d.data(), A->block_structure()->cols);
          Observe(B.get(), more, context, threads, "diagonal block matrix");
        }
        A->AppendRows(*B);
        for (auto& r : B->block_structure()->rows) row_sizes.push_back(r.block.size);
        Mat both(model.rows() + more.rows(), model.cols());
        both << model, more;
        model = both;
        reshaped = true;
        sim::Probe("matrix.appended");
        break;
      }
      case 1: {
        const int n = std::min(static_cast<int>(row_sizes.size()) - 1, sim::Range(1, 4));
        if (n <= 0) break;
        A->DeleteRowBlocks(n);
        for (int i = 0; i < n; ++i) {
          model = Mat(model.topRows(model.rows() - row_sizes.back()));
          row_sizes.pop_back();
        }
        reshaped = true;
        sim::Probe("matrix.deleted");
        break;
      }
      case 2: Scale(A.get(), &model, context, threads); break;
      case 3:
        if (sim::Chance(20)) Zero(A.get(), &model, context, threads);
        break;
      case 4: Refill(A.get(), &model); break;
      case 5: A->AddTransposeBlockStructure(); break;
      case 6: {
        if (crs && sim::Chance(60)) {
          A->UpdateCompressedRowSparseMatrix(crs.get());
          sim::Probe("matrix.crs_updated");
        } else {
          crs = A->ToCompressedRowSparseMatrix();
        }
        WellFormed(*crs, "compressed rows of a block sparse matrix");
        SIM_CHECK(crs->row_blocks().size() == row_sizes.size() && crs->col_blocks().size() == cols.size(), "crs-structure", "compressed rows of a block sparse matrix: number of blocks");
        Observe(crs.get(), model, context, threads, "compressed rows of a block sparse matrix");
        if (!A->transpose_block_structure()) break;
        if (crst && sim::Chance(60)) A->UpdateCompressedRowSparseMatrixTranspose(crst.get());
        else crst = A->ToCompressedRowSparseMatrixTranspose();
        WellFormed(*crst, "compressed rows of the transpose");
        Observe(crst.get(), model.transpose(), context, threads, "compressed rows of the transpose");
        break;
      }
      case 7: {
        TripletSparseMatrix t(1, 1, 1);
        A->ToTripletSparseMatrix(&t);
        Observe(&t, model, context, threads, "triplets of a block sparse matrix");
        break;
      }
      default: {
        if (A->num_nonzeros() == 0) break;
        if (!ip || sim::Chance(30)) {
          const int nb = static_cast<int>(row_sizes.size());
          ip_first = sim::Chance(50) ? 0 : static_cast<int>(sim::Draw(nb));
          ip_last = sim::Chance(50) ? nb : ip_first + sim::Range(1, nb - ip_first);
          ip_storage = sim::Chance(50) ? Storage::UPPER_TRIANGULAR : Storage::LOWER_TRIANGULAR;
          ip = InnerProductComputer::Create(*A, ip_first, ip_last, ip_storage);
        }
        ip->Compute();
        sim::Quiet q;
        const Mat d = DenseOf(ip->result());
        int r0 = 0, r1 = 0;
        for (int i = 0; i < ip_last; ++i) (i < ip_first ? r0 : r1) += row_sizes[i];
        const Mat X = model.middleRows(r0, r1), G = X.transpose() * X;
        for (int i = 0; i < G.rows(); ++i)
          for (int j = 0; j < G.cols(); ++j)
            if (ip_storage == Storage::UPPER_TRIANGULAR ? j >= i : j <= i) SIM_CHECK(std::abs(d(i, j) - G(i, j)) <= 1e-10 * (1 + std::abs(G(i, j))), "inner-product", "A'A(%d,%d) of row blocks %d to %d is %.17g, the model has %.17g", i, j, ip_first, ip_last, d(i, j), G(i, j));
        sim::Probe("matrix.inner_product");
      }
    }
    if (reshaped) crs.reset(), crst.reset(), ip.reset();
    Observe(A.get(), model, context, threads, "block sparse matrix");
  }
}

Mat DrawDense(int m, int n, std::vector<std::pair<int, int>>* at) {
  sim::Quiet q;
  Mat d = Mat::Zero(m, n);
  const int density = sim::Range(5, 90);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (sim::Chance(density)) {
        d(i, j) = sim::Uniform(-2, 2);
        at->emplace_back(i, j);
      }
  for (size_t i = at->size(); i > 1; --i) std::swap((*at)[i - 1], (*at)[sim::Draw(i)]);
  return d;
}

// Entries in any order, some split into two that add up.
TripletSparseMatrix DrawTriplet(int m, int n, Mat* model) {
  std::vector<std::pair<int, int>> at;
  *model = DrawDense(m, n, &at);
  sim::Quiet q;
  std::vector<int> r, c;
  std::vector<double> v;
  for (auto& p : at) {
    const double x = (*model)(p.first, p.second);
    r.push_back(p.first), c.push_back(p.second);
    v.push_back(x);
  }
  return TripletSparseMatrix(m, n, r, c, v);
}

void Triplet(ContextImpl* context, int threads) {
  Mat model;
  TripletSparseMatrix t = DrawTriplet(sim::Range(1, 12), sim::Range(1, 9), &model);
  const int ops = sim::Range(2, 9);
  for (int k = 0; k < ops; ++k) {
    const int op = static_cast<int>(sim::Draw(8));
    sim::Event("triplet operation %d", op);
    switch (op) {
      case 0:
      case 1: {
        Mat more;
        const bool rows = op == 0;
        TripletSparseMatrix u = DrawTriplet(rows ? sim::Range(1, 5) : t.num_rows(), rows ? t.num_cols() : sim::Range(1, 5), &more);
        if (rows) t.AppendRows(u);
        else t.AppendCols(u);
        Mat both(model.rows() + (rows ? more.rows() : 0), model.cols() + (rows ? 0 : more.cols()));
        both.topLeftCorner(model.rows(), model.cols()) = model;
        both.bottomRightCorner(more.rows(), more.cols()) = more;
        model = both;
        break;
      }
      case 2: {
        const int m = sim::Range(1, 14), n = sim::Range(1, 11);
        t.Resize(m, n);
        Mat d = Mat::Zero(m, n);
        const int a = std::min<int>(m, model.rows()), b = std::min<int>(n, model.cols());
        d.topLeftCorner(a, b) = model.topLeftCorner(a, b);
        model = d;
        break;
      }
      case 3: Scale(&t, &model, context, threads); break;
      case 4:
        if (sim::Chance(25)) {
          // It also forgets its entries.
          Zero(&t, &model, context, threads);
        }
        break;
      case 5: {
        TripletSparseMatrix copy(t), other(3, 3, 1);
        other = copy;
        if (sim::Chance(50)) t = other;
        Observe(&other, model, context, threads, "copied triplets");
        break;
      }
      case 6: {
        ceres::CRSMatrix c;
        t.ToCRSMatrix(&c);
        sim::Quiet q;
        SIM_CHECK(c.num_rows == model.rows() && c.num_cols == model.cols() && (int)c.rows.size() == c.num_rows + 1 && c.cols.size() == c.values.size() && c.rows.back() == (int)c.cols.size(), "crs-structure", "CRS form of triplets is malformed");
        Mat d = Mat::Zero(model.rows(), model.cols());
        for (int r = 0; r < c.num_rows; ++r)
          for (int i = c.rows[r]; i < c.rows[r + 1]; ++i) d(r, c.cols[i]) += c.values[i];
        Same(d, model, "matrix-values", "CRS form of triplets");
        break;
      }
      default: {
        DenseSparseMatrix d(t);
        Mat dm = model;
        Observe(&d, dm, context, threads, "dense matrix of triplets");
        Scale(&d, &dm, context, threads);
        Observe(&d, dm, context, threads, "scaled dense matrix");
        Zero(&d, &dm, context, threads);
        Observe(&d, dm, context, threads, "cleared dense matrix");
      }
    }
    Observe(&t, model, context, threads, "triplet matrix");
  }
}

void CompressedRow(ContextImpl* context, int threads) {
  Mat model;
  std::unique_ptr<CompressedRowSparseMatrix> c;
  {
    TripletSparseMatrix t = DrawTriplet(sim::Range(1, 12), sim::Range(1, 9), &model);
    if (sim::Chance(50)) {
      c = CompressedRowSparseMatrix::FromTripletSparseMatrix(t);
    } else {
      c = CompressedRowSparseMatrix::FromTripletSparseMatrixTransposed(t);
      model = Mat(model.transpose());
    }
  }
  const int ops = sim::Range(2, 9);
  for (int k = 0; k < ops; ++k) {
    const int op = static_cast<int>(sim::Draw(7));
    sim::Event("compressed row operation %d", op);
    switch (op) {
      case 0: {
        Mat more;
        TripletSparseMatrix t = DrawTriplet(sim::Range(0, 5), c->num_cols(), &more);
        auto d = CompressedRowSparseMatrix::FromTripletSparseMatrix(t);
        c->AppendRows(*d);
        Mat both(model.rows() + more.rows(), model.cols());
        both << model, more;
        model = both;
        sim::Probe("matrix.appended");
        break;
      }
      case 1: {
        const int n = std::min<int>(model.rows() - 1, sim::Range(0, 4));
        c->DeleteRows(n);
        model = Mat(model.topRows(model.rows() - n));
        sim::Probe("matrix.deleted");
        break;
      }
      case 2: Scale(c.get(), &model, context, threads); break;
      case 3: {
        auto t = c->Transpose();
        WellFormed(*t, "transposed compressed rows");
        Observe(t.get(), model.transpose(), context, threads, "transposed compressed rows");
        if (sim::Chance(50)) {
          c = std::move(t);
          model = Mat(model.transpose());
        }
        break;
      }
      case 4: {
        ceres::CRSMatrix m;
        m.rows.assign(3, 7);
        c->ToCRSMatrix(&m);
        sim::Quiet q;
        SIM_CHECK(m.num_rows == model.rows() && m.num_cols == model.cols() && (int)m.rows.size() == m.num_rows + 1 && m.cols.size() == m.values.size() && m.rows.back() == (int)m.cols.size(), "crs-structure", "CRS form of compressed rows is malformed");
        Mat d = Mat::Zero(model.rows(), model.cols());
        for (int r = 0; r < m.num_rows; ++r)
          for (int i = m.rows[r]; i < m.rows[r + 1]; ++i) d(r, m.cols[i]) += m.values[i];
        Same(d, model, "matrix-values", "CRS form of compressed rows");
        break;
      }
      case 5:
        if (sim::Chance(20)) Zero(c.get(), &model, context, threads);
        break;
      default: {
        // A block diagonal matrix and a plain diagonal one.
        const std::vector<int> sizes = DrawSizes(1, 6, 4);
        const Vec d = Rnd(Total(sizes));
        auto b = CompressedRowSparseMatrix::CreateBlockDiagonalMatrix(d.data(), Blocks(sizes));
        WellFormed(*b, "block diagonal matrix");
        Observe(b.get(), d.asDiagonal(), context, threads, "block diagonal matrix");
        CompressedRowSparseMatrix p(d.data(), static_cast<int>(d.size()));
        WellFormed(p, "diagonal matrix");
        Observe(&p, d.asDiagonal(), context, threads, "diagonal matrix");
        if (sim::Chance(50)) {
          Mat m = d.asDiagonal();
          b->AppendRows(*b->Transpose());
          Mat both(m.rows() * 2, m.cols());
          both << m, m;
          const int n = sizes.back();
          b->DeleteRows(n);
          WellFormed(*b, "shortened block diagonal matrix");
          Observe(b.get(), both.topRows(both.rows() - n), context, threads, "shortened block diagonal matrix");
        }
      }
    }
    WellFormed(*c, "compressed row matrix");
    Observe(c.get(), model, context, threads, "compressed row matrix");
  }
}

// Symmetric matrices of which only the blocks of one triangle are stored.
void Symmetric(ContextImpl* context, int threads) {
  const std::vector<int> sizes = DrawSizes(1, 8, 4);
  const std::vector<Block> blocks = Blocks(sizes);
  const int n = Total(sizes), nb = static_cast<int>(sizes.size());
  Mat model = Mat::Zero(n, n);
  std::set<std::pair<int, int>> there;
  {
    sim::Quiet q;
    const int density = sim::Range(10, 90);
    for (int i = 0; i < nb; ++i)
      for (int j = i; j < nb; ++j)
        if (i == j || sim::Chance(density)) there.emplace(i, j);
  }
  absl::btree_set<std::pair<int, int>> pairs(there.begin(), there.end());
  BlockRandomAccessSparseMatrix s(blocks, pairs, context, threads);
  BlockRandomAccessDiagonalMatrix diag(blocks, context, threads);
  const int rounds = sim::Range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    {
      s.SetZero();
      diag.SetZero();
      Same(DenseOf(*s.matrix()), Mat::Zero(n, n), "matrix-values", "cleared symmetric matrix");
      Same(DenseOf(*diag.matrix()), Mat::Zero(n, n), "matrix-values", "cleared block diagonal matrix");
    }
    Mat dm = Mat::Zero(n, n);
    model.setZero();
    {
      sim::Quiet q;
      for (auto& p : there) {
        const auto &a = blocks[p.first], &b = blocks[p.second];
        Mat v(a.size, b.size);
        for (int i = 0; i < a.size; ++i)
          for (int j = 0; j < b.size; ++j) v(i, j) = sim::Uniform(-1, 1);
        if (p.first == p.second) v = Mat(v * v.transpose() + Mat::Identity(a.size, a.size));
        auto write = [&](BlockRandomAccessMatrix* m) {
          int r, c, rs, cs;
          CellInfo* cell = m->GetCell(p.first, p.second, &r, &c, &rs, &cs);
          SIM_CHECK(cell != nullptr, "cell-missing", "cell (%d,%d) is not there", p.first, p.second);
          ceres::MatrixRef(cell->values, rs, cs).block(r, c, a.size, b.size) += v;
        };
        write(&s);
        model.block(a.position, b.position, a.size, b.size) = v;
        model.block(b.position, a.position, b.size, a.size) = v.transpose();
        if (p.first == p.second) {
          write(&diag);
          dm.block(a.position, a.position, a.size, a.size) = v;
        }
      }
      for (int i = 0; i < nb; ++i)
        for (int j = i; j < nb; ++j) {
          int r, c, rs, cs;
          SIM_CHECK((s.GetCell(i, j, &r, &c, &rs, &cs) != nullptr) == (there.count({i, j}) > 0), "cell-missing", "cell (%d,%d) of a sparse symmetric matrix", i, j);
        }
    }
    const Vec x = Rnd(n), y0 = Rnd(n);
    Vec y = y0;
    s.SymmetricRightMultiplyAndAccumulate(x.data(), y.data());
    Same(y, y0 + model * x, "matrix-symmetric-multiply", "symmetric y += A x");
    Observe(s.mutable_matrix(), model.triangularView<Eigen::Upper>().toDenseMatrix() + [&] {
      Mat low = Mat::Zero(n, n);
      for (auto& b : blocks) low.block(b.position, b.position, b.size, b.size) = model.block(b.position, b.position, b.size, b.size).triangularView<Eigen::StrictlyLower>();
      return low;
    }(), context, threads, "stored half of a symmetric matrix");
    // The same in compressed rows, of either triangle.
    {
      auto c = s.matrix()->ToCompressedRowSparseMatrix();
      c->set_storage_type(Storage::UPPER_TRIANGULAR);
      for (int half = 0; half < 2; ++half) {
        const Vec z0 = Rnd(n);
        Vec z = z0, norm = Vec::Constant(n, 4);
        if (sim::Chance(50)) c->RightMultiplyAndAccumulate(x.data(), z.data());
        else c->RightMultiplyAndAccumulate(x.data(), z.data(), context, threads);
        Same(z, z0 + model * x, "matrix-symmetric-multiply", half ? "lower triangular y += A x" : "upper triangular y += A x");
        z = z0;
        c->LeftMultiplyAndAccumulate(x.data(), z.data());
        Same(z, z0 + model * x, "matrix-symmetric-multiply", half ? "lower triangular y += A' x" : "upper triangular y += A' x");
        c->SquaredColumnNorm(norm.data());
        Same(norm, model.colwise().squaredNorm().transpose(), "matrix-column-norm", half ? "lower triangular column norms" : "upper triangular column norms");
        c = c->Transpose();
        SIM_CHECK(c->storage_type() == (half ? Storage::UPPER_TRIANGULAR : Storage::LOWER_TRIANGULAR), "crs-structure", "storage type of a transposed triangular matrix");
      }
    }
    Same(DenseOf(*diag.matrix()), dm, "matrix-values", "block diagonal matrix");
    diag.Invert();
    y = y0;
    diag.RightMultiplyAndAccumulate(x.data(), y.data());
    {
      sim::Quiet q;
      const Vec expect = y0 + Vec(dm.ldlt().solve(x));
      const double scale = 1 + expect.lpNorm<Eigen::Infinity>();
      for (int i = 0; i < n; ++i) SIM_CHECK(std::abs(y[i] - expect[i]) <= 1e-9 * scale, "block-diagonal-inverse", "inverse of a block diagonal matrix: entry %d is %.17g, the model has %.17g", i, y[i], expect[i]);
    }
    sim::Probe("matrix.symmetric");
  }
}

void Dynamic(ContextImpl* context, int threads) {
  const int m = sim::Range(1, 10), n = sim::Range(1, 8);
  DynamicCompressedRowSparseMatrix d(m, n, sim::Range(0, 5));
  Mat model = Mat::Zero(m, n);
  const int rounds = sim::Range(1, 5);
  for (int round = 0; round < rounds; ++round) {
    {
      sim::Quiet q;
      const int first = static_cast<int>(sim::Draw(m)), k = round ? sim::Range(0, m - first) : 0;
      d.ClearRows(first, k);
      model.middleRows(first, k).setZero();
      const int entries = sim::Range(0, 20);
      for (int e = 0; e < entries; ++e) {
        const int i = static_cast<int>(sim::Draw(m)), j = static_cast<int>(sim::Draw(n));
        if (model(i, j) != 0) continue;
        model(i, j) = sim::Uniform(1, 2);
        d.InsertEntry(i, j, model(i, j));
      }
    }
    d.Finalize(sim::Chance(50) ? 0 : sim::Range(1, 6));
    WellFormed(d, "dynamic compressed row matrix");
    SIM_CHECK(d.num_nonzeros() == (model.array() != 0).count(), "crs-structure", "dynamic compressed row matrix: %d entries instead of %d", d.num_nonzeros(), (int)(model.array() != 0).count());
    Observe(&d, model, context, threads, "dynamic compressed row matrix");
    if (sim::Chance(30)) {
      // Rows added after finalising go away again.
      Mat more;
      TripletSparseMatrix t = DrawTriplet(sim::Range(1, 4), n, &more);
      auto c = CompressedRowSparseMatrix::FromTripletSparseMatrix(t);
      d.AppendRows(*c);
      Mat both(m + more.rows(), n);
      both << model, more;
      Observe(&d, both, context, threads, "extended dynamic matrix");
      d.DeleteRows(static_cast<int>(more.rows()));
      Observe(&d, model, context, threads, "shortened dynamic matrix");
    }
    sim::Probe("matrix.dynamic");
  }
}

SIM_WORKLOAD(C05, matrices, 6) {
  ContextImpl context;
  static const int t[] = {2, 1, 3, 4, 6, 8};
  const int threads = t[sim::Draw(6)];
  context.EnsureMinimumThreads(threads - 1);
  const int kind = static_cast<int>(sim::Draw(6));
  sim::State(wl::HashMix(kind, threads));
  switch (kind) {
    case 0: Triplet(&context, threads); break;
    case 1: CompressedRow(&context, threads); break;
    case 2: Symmetric(&context, threads); break;
    case 3: Dynamic(&context, threads); break;
    default: BlockSparse(&context, threads);
  }
  if (threads > 1) sim::NonTrivial();
}

}  // namespace
