// LIBS: -lz -pthread
#define VP_THREADS
#include <albatross/GP>
#include <albatross/src/linalg/qr_utils.hpp>
#include "vpe.h"
using namespace albatross;
using Eigen::MatrixXd; using Eigen::VectorXd;
static bool rel(const MatrixXd &a, const MatrixXd &b, double tol) {   // relative to the largest entry
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  double s = 0, e = 0;
  for (Eigen::Index i = 0; i < b.rows(); ++i) for (Eigen::Index j = 0; j < b.cols(); ++j) { if (!std::isfinite(a(i, j))) return false; s = std::max(s, std::fabs(b(i, j))); e = std::max(e, std::fabs(a(i, j) - b(i, j))); }
  return e <= tol * s;
}
static MatrixXd eye(int n) { MatrixXd m = MatrixXd::Zero(n, n); for (int i = 0; i < n; ++i) m(i, i) = 1; return m; }
// positive definite with a wide range of scales and some exact structure
static MatrixXd gen(vp::Rng &r, int n) {
  MatrixXd a = vp::spd(r, n);
  int k = r.range(0, 5);
  if (k == 0) { MatrixXd d = MatrixXd::Zero(n, n); for (int i = 0; i < n; ++i) d(i, i) = r.real(0.1, 5); a = d; }
  if (k == 1) { std::vector<double> s; for (int i = 0; i < n; ++i) s.push_back(std::pow(10., r.range(-3, 3))); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) *= s[std::size_t(i)] * s[std::size_t(j)]; }
  if (k == 2) a *= std::pow(10., r.range(-14, 14));
  return a;
}
VP_TEST(roots) {
  int n = r.range(0, 3) ? r.range(1, 8) : r.range(1, 2), m = r.range(0, 4);
  MatrixXd A = gen(r, n), B = vp::mat(r, n, m), Ai = vp::inv(A);
  VectorXd b = vp::vec(r, n);
  vp::describe("factorisation of " + vp::str(A) + " right hand side " + vp::str(B));
  // scale the variables to unit diagonal, so that the comparison sees every entry
  VectorXd s(n); for (int i = 0; i < n; ++i) s[i] = std::sqrt(A(i, i));
  auto corr = [&](const MatrixXd &x, bool inverse) { MatrixXd o = x; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o(i, j) = inverse ? x(i, j) * s[i] * s[j] : x(i, j) / (s[i] * s[j]); return o; };
  const Eigen::SerializableLDLT f(A);
  MatrixXd root = f.sqrt_product(eye(n)), iroot = f.sqrt_solve(eye(n)), rt = f.sqrt_transpose(), irt = f.sqrt_transpose_solve(eye(n));
  VP_NAMED("root times its transpose", rel(corr(vp::mul(root, vp::T(root)), false), corr(A, false), 1e-9), vp::str(root));
  VP_NAMED("transposed inverse root times inverse root", rel(corr(vp::mul(vp::T(iroot), iroot), true), corr(Ai, true), 1e-7), vp::str(iroot));
  VP_NAMED("inverse root whitens", rel(vp::mul(iroot, vp::mul(A, vp::T(iroot))), eye(n), 1e-7), vp::str(iroot));
  VP_NAMED("inverse root of the root", rel(vp::mul(iroot, root), eye(n), 1e-7), "");
  VP_NAMED("sqrt_transpose is the transposed root", rel(rt, vp::T(root), 1e-12), vp::str(rt));
  VP_NAMED("sqrt_transpose_solve is the transposed inverse root", rel(irt, vp::T(iroot), 1e-9), vp::str(irt));
  VP_NAMED("sqrt_product of a matrix", rel(f.sqrt_product(B), vp::mul(root, B), 1e-12), vp::str(f.sqrt_product(B)));
  VP_NAMED("sqrt_product of a vector", rel(f.sqrt_product(b), vp::mul(root, b), 1e-12), vp::str(f.sqrt_product(b)));
  VP_NAMED("sqrt_solve of a matrix", rel(f.sqrt_solve(B), vp::mul(iroot, B), 1e-9), vp::str(f.sqrt_solve(B)));
  VP_NAMED("sqrt_solve of a vector", rel(f.sqrt_solve(b), vp::mul(iroot, b), 1e-9), vp::str(f.sqrt_solve(b)));
  VP_NAMED("sqrt_transpose_solve of a matrix", rel(f.sqrt_transpose_solve(B), vp::mul(vp::T(iroot), B), 1e-9), "");
  VP_NAMED("sqrt_transpose_solve of a vector", rel(f.sqrt_transpose_solve(b), vp::mul(vp::T(iroot), b), 1e-9), "");
  VP_NAMED("positive definite", f.is_positive_definite(), "");
  double ld = 0; { MatrixXd c = corr(A, false); ld = std::log(vp::det(c)); for (int i = 0; i < n; ++i) ld += 2 * std::log(s[i]); }
  VP_NAMED("log determinant", std::fabs(f.log_determinant() - ld) <= 1e-6 * (1 + std::fabs(ld)), vp::str(f.log_determinant()) + " instead of " + vp::str(ld));
  VectorXd d = f.inverse_diagonal(), dw(n);
  for (int i = 0; i < n; ++i) dw[i] = 1;
  MatrixXd q(n, 1); for (int i = 0; i < n; ++i) q(i, 0) = d.size() == n ? d[i] / Ai(i, i) : 0;
  VP_NAMED("diagonal of the inverse", rel(q, MatrixXd(dw), 1e-6), vp::str(MatrixXd(d)));
  std::vector<std::vector<std::size_t>> blocks;
  for (int k = r.range(0, 4); k > 0; --k) blocks.push_back(r.coin() ? vp::distinct(r, n, r.range(0, n)) : vp::indices(r, n, r.range(0, n + 1)));
  auto check = [&](const char *name, const std::vector<MatrixXd> &got) {
    VP_NAMED(name, got.size() == blocks.size(), vp::str(double(got.size())));
    for (std::size_t k = 0; k < blocks.size() && k < got.size(); ++k) {
      MatrixXd w = vp::pick(corr(Ai, true), blocks[k], blocks[k]), g = got[k];
      bool ok = g.rows() == w.rows() && g.cols() == w.cols();
      if (ok) for (Eigen::Index i = 0; i < g.rows(); ++i) for (Eigen::Index j = 0; j < g.cols(); ++j) g(i, j) *= s[Eigen::Index(blocks[k][std::size_t(i)])] * s[Eigen::Index(blocks[k][std::size_t(j)])];
      VP_NAMED(name, ok && rel(g, w, 1e-6), vp::str(got[k]));
    }
  };
  check("blocks of the inverse", f.inverse_blocks(blocks));
  ThreadPool pool(std::size_t(r.range(1, 4)));
  check("blocks of the inverse, threaded", f.inverse_blocks(blocks, &pool));
  VP_NAMED("solve", rel(vp::mul(corr(A, false), MatrixXd(s.asDiagonal() * f.solve(B))), MatrixXd(s.cwiseInverse().asDiagonal() * B), 1e-7), "");
  const Eigen::SerializableLDLT g(A);
  VP_NAMED("equal to a factorisation of the same matrix", f == g, "");
  if (n) { MatrixXd A2 = A; int i = r.range(0, n - 1); A2(i, i) *= 1.5; VP_NAMED("differs from another factorisation", !(f == Eigen::SerializableLDLT(A2)), ""); }
}
VP_TEST(qr) {
  int n = r.range(1, 5), m = n + r.range(0, 4), k = r.range(0, 3);
  MatrixXd A = vp::mat(r, m, n), B = vp::mat(r, n, k);
  for (int i = 0; i < n; ++i) A(i, i) += r.coin() ? 4 : -4;
  vp::describe("QR of " + vp::str(A));
  const Eigen::ColPivHouseholderQR<MatrixXd> f(A);
  MatrixXd R = get_R(f), AtA = vp::mul(vp::T(A), A);
  MatrixXd P = get_P(f).toDenseMatrix().cast<double>();
  VP_NAMED("R'R", rel(vp::mul(vp::T(R), R), vp::mul(vp::T(P), vp::mul(AtA, P)), 1e-9), vp::str(R));
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) VP_NAMED("R is upper triangular", R(i, j) == 0, vp::str(R));
  MatrixXd S = albatross::sqrt_solve(f, eye(n));
  VP_NAMED("squares to the inverse", rel(vp::mul(vp::T(S), S), vp::inv(AtA), 1e-6), vp::str(S));
  VP_NAMED("of a matrix", rel(albatross::sqrt_solve(f, B), vp::mul(S, B), 1e-8), "");
}
template Eigen::MatrixXd albatross::subset_cols<std::size_t>(const Eigen::MatrixXd &, const std::vector<std::size_t> &);
VP_MAIN
