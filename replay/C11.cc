// LIBS: -lz -pthread
#define VP_THREADS
#include <albatross/GP>
#include <albatross/src/linalg/block_diagonal.hpp>
#include "vpe.h"
using namespace albatross;
using Eigen::MatrixXd; using Eigen::VectorXd;
static MatrixXd dense(const std::vector<MatrixXd> &bs) {
  Eigen::Index n = 0, m = 0; for (auto &b : bs) { n += b.rows(); m += b.cols(); }
  MatrixXd o = MatrixXd::Zero(n, m); Eigen::Index r = 0, c = 0;
  for (auto &b : bs) { for (Eigen::Index i = 0; i < b.rows(); ++i) for (Eigen::Index j = 0; j < b.cols(); ++j) o(r + i, c + j) = b(i, j); r += b.rows(); c += b.cols(); }
  return o;
}
static bool near(const MatrixXd &a, const MatrixXd &b, double tol = 1e-8) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || vp::mclose(a, b, tol)); }
VP_TEST(factorisations) {
  std::vector<MatrixXd> bs, inverses, roots;
  int k = r.range(0, 5) ? r.range(1, 5) : r.range(6, 12), n = 0, m = r.range(0, 3) ? r.range(1, 3) : 0;
  BlockDiagonal B;
  std::string d;
  for (int i = 0; i < k; ++i) { int s = r.range(0, 3) ? r.range(1, 4) : 1; bs.push_back(i && !r.range(0, 2) ? vp::similar(r, bs.back()) : vp::spd(r, s)); s = int(bs.back().rows()); n += s; d += vp::str(bs.back()) + " "; }
  B.blocks = bs;
  MatrixXd D = dense(bs), R = vp::mat(r, n, m);
  VectorXd v = vp::vec(r, n);
  vp::describe("blocks " + d + " right hand side " + vp::str(R) + " vector " + vp::str(MatrixXd(v)));
  const BlockDiagonalLDLT f = B.ldlt();
  VP_NAMED("one factor per block", f.blocks.size() == bs.size() && f.rows() == n && f.cols() == n, "");
  double ld = 0;
  for (auto &b : bs) { inverses.push_back(vp::inv(b)); ld += std::log(vp::det(b)); }
  for (auto &b : f.blocks) { MatrixXd e = MatrixXd::Zero(b.rows(), b.rows()); for (Eigen::Index i = 0; i < b.rows(); ++i) e(i, i) = 1; roots.push_back(b.sqrt_solve(e)); }
  MatrixXd I = dense(inverses), H = dense(roots);
  VP_NAMED("roots multiply to the inverse", near(vp::mul(vp::T(H), H), I, 1e-7), vp::str(H));
  MatrixXd iR = vp::mul(I, R), hR = vp::mul(H, R), iv = vp::mul(I, MatrixXd(v)), hv = vp::mul(H, MatrixXd(v));
  VP_NAMED("solve", near(f.solve(R), iR), vp::str(f.solve(R)) + " instead of " + vp::str(iR));
  VP_NAMED("solve of a vector", near(f.solve(v), iv), vp::str(f.solve(v)));
  VP_NAMED("sqrt_solve", near(f.sqrt_solve(R), hR), vp::str(f.sqrt_solve(R)));
  VP_NAMED("sqrt_solve of a vector", near(f.sqrt_solve(v), hv), "");
  Eigen::SparseMatrix<double> sp = R.sparseView();
  VP_NAMED("solve of a sparse matrix", near(f.solve(sp), iR), "");
  VP_NAMED("sqrt_solve of a sparse matrix", near(f.sqrt_solve(sp), hR), "");
  int c0 = r.range(0, m), c1 = r.range(c0, m);
  VP_NAMED("solve of part of a matrix", near(f.solve(R.block(0, c0, n, c1 - c0)), iR.block(0, c0, n, c1 - c0)), "");
  VP_NAMED("solve of an expression", near(f.solve(2. * R), 2. * iR), "");
  { ThreadPool pool(std::size_t(r.range(1, 4)));
    for (ThreadPool *p : {(ThreadPool *)nullptr, &pool}) {
      VP_NAMED("solve with a pool", near(f.solve(R, p), iR), vp::str(f.solve(R, p)) + " instead of " + vp::str(iR));
      VP_NAMED("solve of a vector with a pool", near(f.solve(v, p), iv), "");
      VP_NAMED("sqrt_solve with a pool", near(f.sqrt_solve(R, p), hR), vp::str(f.sqrt_solve(R, p)));
      VP_NAMED("sqrt_solve of a vector with a pool", near(f.sqrt_solve(v, p), hv), "");
    } }
  VP_NAMED("log determinant", std::fabs(f.log_determinant() - ld) <= 1e-8 * (1 + std::fabs(ld)), vp::str(f.log_determinant()) + " instead of " + vp::str(ld));
  VP_NAMED("adjoint", near(f.adjoint().solve(R), iR), "");
  auto rows = f.block_to_row_map();
  Eigen::Index at = 0; bool ok = rows.size() == bs.size();
  for (std::size_t i = 0; ok && i < bs.size(); ++i) { ok = rows.count(i) && rows[i] == at; at += bs[i].rows(); }
  VP_NAMED("rows of the blocks", ok, "");
}
VP_TEST(matrices) {
  std::vector<MatrixXd> bs, cs, ds;
  int k = r.range(0, 6), n = 0, m = r.range(0, 3);
  for (int i = 0; i < k; ++i) { int s = r.range(0, 3) ? r.range(1, 4) : 0; bs.push_back(vp::mat(r, s, s)); cs.push_back(vp::mat(r, s, s)); n += s; MatrixXd e = bs.back(); for (Eigen::Index x = 0; x < s; ++x) for (Eigen::Index y = 0; y < s; ++y) e(x, y) -= cs.back()(x, y); ds.push_back(e); }
  BlockDiagonal B, C; B.blocks = bs; C.blocks = cs;
  MatrixXd D = dense(bs), R = vp::mat(r, n, m); VectorXd v = vp::vec(r, n);
  vp::describe("dense equivalent " + vp::str(D) + " right hand side " + vp::str(R));
  VP_NAMED("size", B.rows() == n && B.cols() == n, "");
  VP_NAMED("dense", near(B.toDense(), D, 1e-14), vp::str(B.toDense()));
  MatrixXd p = B * R, pv = B * v;
  VP_NAMED("product", near(p, vp::mul(D, R), 1e-12), vp::str(p));
  VP_NAMED("product with a vector", near(pv, vp::mul(D, MatrixXd(v)), 1e-12), vp::str(pv));
  VP_NAMED("difference", near((B - C).toDense(), dense(ds), 1e-14), "");
  MatrixXd dg(n, 1); for (int i = 0; i < n; ++i) dg(i, 0) = D(i, i);
  VP_NAMED("diagonal", near(B.diagonal(), dg, 1e-14), vp::str(MatrixXd(B.diagonal())));
}
VP_MAIN
