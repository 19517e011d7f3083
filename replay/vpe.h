// Eigen / distribution generators shared by the replays.
#ifndef VP_EIGEN_H
#define VP_EIGEN_H
#include "vp.h"
namespace vp {
inline std::string str(const Eigen::MatrixXd &m) {
  std::ostringstream o;
  o.precision(17);
  o << m.rows() << "x" << m.cols() << "[";
  for (Eigen::Index i = 0; i < m.rows(); ++i) { for (Eigen::Index j = 0; j < m.cols(); ++j) o << m(i, j) << ","; o << ";"; }
  return o.str() + "]";
}
// one entry in five is a small integer, so zeros and ties occur
inline double num(Rng &r, double s) { return r.range(0, 4) ? r.real(-s, s) : double(r.range(-1, 1)); }
inline Eigen::VectorXd vec(Rng &r, int n, double s = 3) { Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v[i] = num(r, s); return v; }
inline Eigen::MatrixXd mat(Rng &r, int n, int m, double s = 3) { Eigen::MatrixXd v(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v(i, j) = r.real(-s, s); return v; }
// well conditioned symmetric positive definite, with varied diagonal so that pivoting permutes
inline Eigen::MatrixXd spd(Rng &r, int n) {
  Eigen::MatrixXd a = mat(r, n, n, 1), m(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { m(i, j) = 0; for (int k = 0; k < n; ++k) m(i, j) += a(i, k) * a(j, k); }
  for (int i = 0; i < n; ++i) m(i, i) += r.real(0.5, 4);
  return m;
}
// the same matrix but for an entry of the diagonal, which is larger
inline Eigen::MatrixXd similar(Rng &r, Eigen::MatrixXd a) { int n = int(a.rows()); if (n) { int i = r.range(0, n - 1); a(i, i) += r.real(0.1, 3); } return a; }
inline std::vector<std::size_t> indices(Rng &r, int n, int k) { std::vector<std::size_t> o; if (n) for (int i = 0; i < k; ++i) o.push_back(std::size_t(r.range(0, n - 1))); return o; }
inline std::vector<std::size_t> distinct(Rng &r, int n, int k) {
  std::vector<std::size_t> o; for (int i = 0; i < n; ++i) o.push_back(std::size_t(i));
  for (int i = n - 1; i > 0; --i) std::swap(o[std::size_t(i)], o[std::size_t(r.range(0, i))]);
  o.resize(std::size_t(std::min(k, n))); return o;
}
inline Eigen::MatrixXd mul(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b) {
  Eigen::MatrixXd c(a.rows(), b.cols());
  for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < b.cols(); ++j) { double s = 0; for (Eigen::Index k = 0; k < a.cols(); ++k) s += a(i, k) * b(k, j); c(i, j) = s; }
  return c;
}
inline bool mclose(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b, double tol = 1e-8) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) if (!close(a(i, j), b(i, j), tol)) return false;
  return true;
}
inline bool same(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b) { return mclose(a, b, 1e-13); }
// Gauss-Jordan inverse with partial pivoting (independent of Eigen's decompositions)
inline Eigen::MatrixXd inv(Eigen::MatrixXd a) {
  int n = int(a.rows());
  Eigen::MatrixXd b = Eigen::MatrixXd::Zero(n, n);
  for (int i = 0; i < n; ++i) b(i, i) = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c; i < n; ++i) if (std::fabs(a(i, c)) > std::fabs(a(p, c))) p = i;
    for (int k = 0; k < n; ++k) { std::swap(a(c, k), a(p, k)); std::swap(b(c, k), b(p, k)); }
    double d = a(c, c);
    for (int k = 0; k < n; ++k) { a(c, k) /= d; b(c, k) /= d; }
    for (int i = 0; i < n; ++i) if (i != c) { double f = a(i, c); for (int k = 0; k < n; ++k) { a(i, k) -= f * a(c, k); b(i, k) -= f * b(c, k); } }
  }
  return b;
}
inline double det(Eigen::MatrixXd a) {
  int n = int(a.rows()); double d = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c; i < n; ++i) if (std::fabs(a(i, c)) > std::fabs(a(p, c))) p = i;
    if (p != c) { for (int k = 0; k < n; ++k) std::swap(a(c, k), a(p, k)); d = -d; }
    d *= a(c, c);
    for (int i = c + 1; i < n; ++i) { double f = a(i, c) / a(c, c); for (int k = c; k < n; ++k) a(i, k) -= f * a(c, k); }
  }
  return d;
}
inline Eigen::MatrixXd T(const Eigen::MatrixXd &a) { Eigen::MatrixXd b(a.cols(), a.rows()); for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) b(j, i) = a(i, j); return b; }
inline Eigen::MatrixXd pick(const Eigen::MatrixXd &m, const std::vector<std::size_t> &a, const std::vector<std::size_t> &b) {
  Eigen::MatrixXd o(Eigen::Index(a.size()), Eigen::Index(b.size()));
  for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) o(Eigen::Index(i), Eigen::Index(j)) = m(Eigen::Index(a[i]), Eigen::Index(b[j]));
  return o;
}
inline Eigen::VectorXd pick(const Eigen::VectorXd &m, const std::vector<std::size_t> &a) { Eigen::VectorXd o{Eigen::Index(a.size())}; for (std::size_t i = 0; i < a.size(); ++i) o[Eigen::Index(i)] = m[Eigen::Index(a[i])]; return o; }
inline int size(Rng &r, int hi = 9) { return r.range(0, 4) ? r.range(1, hi) : r.range(0, 2); }
} // namespace vp
#endif
