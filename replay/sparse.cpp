#include "common.hpp"
#include "smooth/feedback/utils/sparse.hpp"

using namespace smooth::feedback;
using SC = Eigen::SparseMatrix<double>;
using SR = Eigen::SparseMatrix<double, Eigen::RowMajor>;
using D = Eigen::MatrixXd;
using DR = Eigen::Matrix<double, -1, -1, Eigen::RowMajor>;

template<typename S> S rnd_sparse(Rng & r, int m, int n, double dens, bool zeros = true)
{
  S A(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (r.b(dens)) A.insert(i, j) = (zeros && r.b(0.2)) ? 0. : r.d();
  if (r.b()) A.makeCompressed();
  return A;
}
template<typename M> M rnd_any(Rng & r, int m, int n)
{
  if constexpr (std::is_base_of_v<Eigen::SparseMatrixBase<M>, M>) { return rnd_sparse<M>(r, m, n, r.u(0, 1)); }
  else { M A(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.b(0.3) ? 0. : r.d(); return A; }
}
template<typename S> std::vector<std::vector<int>> pattern(const S & A)
{
  std::vector<std::vector<int>> p(A.rows(), std::vector<int>(A.cols(), 0));
  if constexpr (std::is_base_of_v<Eigen::SparseMatrixBase<S>, S>) {
    for (int k = 0; k < A.outerSize(); ++k) for (typename S::InnerIterator it(A, k); it; ++it) p[it.row()][it.col()] = 1;
  } else { for (auto & q : p) for (auto & x : q) x = 1; }
  return p;
}
template<typename S> std::string show(const S & A) { std::ostringstream o; o << "[" << A.rows() << "x" << A.cols() << "]"; auto p = pattern(A); D d(A); for (int i = 0; i < A.rows(); ++i) { o << (i ? ";" : ""); for (int j = 0; j < A.cols(); ++j) { o << " "; if (p[i][j]) o << d(i, j); else o << "."; } } return o.str(); }
template<typename T> constexpr const char * nm() { if constexpr (std::is_same_v<T, SC>) return "col-sparse"; else if constexpr (std::is_same_v<T, SR>) return "row-sparse"; else return "dense"; }

template<typename Dst, typename Src> int blk(Rng & r)
{
  const int R = r.i(0, 6), C = r.i(0, 6);
  const int m = r.i(0, R), n = r.i(0, C), r0 = r.i(0, R - m), c0 = r.i(0, C - n);
  Dst A = rnd_any<Dst>(r, R, C);
  const Src B = rnd_any<Src>(r, m, n);
  const double s = r.b(0.3) ? 1. : r.d();
  const bool up = r.b();
  const int fn = r.i(0, 3);
  const D A0(A), Bd(B);
  const auto pA = pattern(A), pB = pattern(B);
  D want = A0;
  auto pw = pA;
  const int nid = std::min(m, n);
  const std::string ctx = cat("fn=", fn == 0 ? "block_add" : fn == 1 ? "block_write" : fn == 2 ? "block_add_identity" : "block_write_identity", " dest=", nm<Dst>(), show(A), " source=", nm<Src>(), show(B), " r0=", r0, " c0=", c0, " scale=", s, " upper=", up, " n=", nid);
  if (fn < 2) {
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (pB[i][j] && (!up || r0 + i <= c0 + j)) {
      want(r0 + i, c0 + j) = (fn == 0 ? A0(r0 + i, c0 + j) : 0.) + s * Bd(i, j);
      pw[r0 + i][c0 + j] = 1;
    }
    if (fn == 0) { if (!up && s == 1.) block_add(A, r0, c0, B); else if (!up) block_add(A, r0, c0, B, s); else block_add(A, r0, c0, B, s, up); }
    else { if (!up && s == 1.) block_write(A, r0, c0, B); else block_write(A, r0, c0, B, s, up); }
  } else {
    for (int k = 0; k < nid; ++k) { want(r0 + k, c0 + k) = (fn == 2 ? A0(r0 + k, c0 + k) : 0.) + s; pw[r0 + k][c0 + k] = 1; }
    if (fn == 2) { if (s == 1.) block_add_identity(A, r0, c0, nid); else block_add_identity(A, r0, c0, nid, s); }
    else { if (s == 1.) block_write_identity(A, r0, c0, nid); else block_write_identity(A, r0, c0, nid, s); }
  }
  expect(A.rows() == R && A.cols() == C, ctx + ": size changed");
  const D got(A);
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) expect(got(i, j) == want(i, j), cat(ctx, ": coefficient (", i, ",", j, ") is ", got(i, j), " instead of ", want(i, j)));
  expect(pattern(A) == pw, ctx + ": sparsity pattern");
  // expressions as source: block of a sparse matrix, product, transpose
  if constexpr (!std::is_same_v<Src, D> && !std::is_same_v<Src, DR>) {
    Dst A2 = A0.sparseView();
    Src B2 = rnd_any<Src>(r, m, n + 3);
    D w2 = A0;
    w2.block(r0, c0, m, n) += s * D(B2).middleCols(1, n);
    block_add(A2, r0, c0, B2.middleCols(1, n), s);
    expect(D(A2) == w2, cat("block_add of middleCols: ", ctx, " wide source ", show(B2)));
  }
  return m > 0 && n > 0;
}

int c09(Rng & r, long)
{
  switch (r.i(0, 7)) {
    case 0: return blk<SC, SC>(r);
    case 1: return blk<SC, SR>(r);
    case 2: return blk<SC, D>(r);
    case 3: return blk<SC, DR>(r);
    case 4: return blk<SR, SC>(r);
    case 5: return blk<SR, SR>(r);
    case 6: return blk<SR, D>(r);
    default: return blk<SR, DR>(r);
  }
}

template<typename S> int zero(Rng & r)
{
  const int R = r.i(0, 6), C = r.i(0, 6);
  S A = rnd_sparse<S>(r, R, C, r.u(0, 1));
  const D A0(A);
  const auto p = pattern(A);
  const std::string ctx = cat(nm<S>(), A.isCompressed() ? " compressed " : " uncompressed ", show(A));
  // counting
  uint64_t cnt = 0;
  D mk = D::Zero(R, C);
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (p[i][j]) { cnt += A0(i, j) == 0; mk(i, j) = A0(i, j) == 0 ? 9 : 1; }
  expect(count_explicit_zeros(A) == cnt, "count_explicit_zeros " + ctx);
  D m = mark_explicit_zeros(A);
  expect(m.rows() == R && m.cols() == C && m == mk, "mark_explicit_zeros " + ctx);
  uint64_t cd = 0;
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) cd += A0(i, j) == 0;
  expect(count_explicit_zeros(A0) == cd, "count_explicit_zeros(dense) " + ctx);
  // blocks
  const int outer = A.outerSize();
  const int k0 = r.i(0, outer), kn = r.i(0, outer - k0);
  D want = A0;
  const int mode = r.i(0, 3);
  if (mode == 0) { set_zero(A); want.setZero(); }
  else if (mode == 1) { set_zero(A.innerVectors(k0, kn)); if (S::IsRowMajor) want.middleRows(k0, kn).setZero(); else want.middleCols(k0, kn).setZero(); }
  else if (mode == 2) { if constexpr (S::IsRowMajor) { set_zero(A.middleRows(k0, kn)); want.middleRows(k0, kn).setZero(); } else { set_zero(A.middleCols(k0, kn)); want.middleCols(k0, kn).setZero(); } }
  else if (outer > 0) { const int k = r.i(0, outer - 1); set_zero(A.innerVector(k)); if (S::IsRowMajor) want.row(k).setZero(); else want.col(k).setZero(); }
  expect(D(A) == want && A.rows() == R && A.cols() == C, cat("set_zero mode ", mode, " of ", k0, "+", kn, " in ", ctx, " gives ", show(A)));
  expect(pattern(A) == p, cat("set_zero mode ", mode, " changed the pattern of ", ctx));
  return cnt > 0;
}
int c10(Rng & r, long) { return r.b() ? zero<SC>(r) : zero<SR>(r); }

template<typename S1, typename S2, typename S3, typename S4> int fog(Rng & r)
{
  const int No = r.i(0, 3), Ny = r.i(1, 3), Nx = r.i(1, 3);
  const S1 Jf = rnd_any<S1>(r, No, Ny);
  const S2 Hf = rnd_any<S2>(r, Ny, No * Ny);
  const S3 Jg = rnd_any<S3>(r, Ny, Nx);
  const S4 Hg = rnd_any<S4>(r, Nx, Ny * Nx);
  const int r0 = r.i(0, 2), c0 = r.i(0, 2);
  SC out = rnd_sparse<SC>(r, r0 + Nx + r.i(0, 2), c0 + No * Nx + r.i(0, 2), r.u(0, 1));
  D want(out);
  const D jf(Jf), hf(Hf), jg(Jg), hg(Hg);
  for (int o = 0; o < No; ++o) {
    for (int a = 0; a < Nx; ++a) for (int b = 0; b < Nx; ++b) {
      double s = 0;
      for (int k = 0; k < Ny; ++k) for (int l = 0; l < Ny; ++l) s += jg(k, a) * hf(k, o * Ny + l) * jg(l, b);
      for (int j = 0; j < Ny; ++j) s += jf(o, j) * hg(a, j * Nx + b);
      want(r0 + a, c0 + o * Nx + b) += s;
    }
  }
  const std::string ctx = cat("Jf=", show(Jf), " Hf=", show(Hf), " Jg=", show(Jg), " Hg=", show(Hg), " out=", show(out), " r0=", r0, " c0=", c0);
  if (r0 == 0 && c0 == 0) d2r_fog(out, Jf, Hf, Jg, Hg); else d2r_fog(out, Jf, Hf, Jg, Hg, r0, c0);
  const D got(out);
  expect(got.rows() == want.rows() && got.cols() == want.cols(), ctx + ": size changed");
  for (int i = 0; i < got.rows(); ++i) for (int j = 0; j < got.cols(); ++j) expect(std::abs(got(i, j) - want(i, j)) <= 1e-9 * (1 + std::abs(want(i, j))), cat("out(", i, ",", j, ")=", got(i, j), " instead of ", want(i, j), " for ", ctx));
  return No > 1 && Nx > 1;
}
int c11(Rng & r, long)
{
  switch (r.i(0, 4)) {
    case 0: return fog<SC, SC, SC, SC>(r);
    case 1: return fog<D, D, D, D>(r);
    case 2: return fog<SR, SC, SC, SC>(r);
    case 3: return fog<SC, D, D, SC>(r);
    default: return fog<D, SC, SC, D>(r);
  }
}

int main(int argc, char ** argv) { return drive(argc, argv, {{"C09", c09}, {"C10", c10}, {"C11", c11}}); }
