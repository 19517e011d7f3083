// LIBS: -lz
#include <albatross/GP>
#include <albatross/SparseGP>
#include "vpe.h"
using namespace albatross;
using MD = MarginalDistribution;
using JD = JointDistribution;
using Eigen::MatrixXd; using Eigen::VectorXd;
static VectorXd pos(vp::Rng &r, int n) { VectorXd v(n); for (int i = 0; i < n; ++i) v[i] = r.real(0, 4); return v; }
static MD gm(vp::Rng &r, int n) { MD m; m.mean = vp::vec(r, n); m.covariance = DiagonalMatrixXd(pos(r, n)); return m; }
static JD gj(vp::Rng &r, int n) { JD m; m.mean = vp::vec(r, n); m.covariance = vp::spd(r, n); return m; }
static MatrixXd dg(const VectorXd &v) { MatrixXd m = MatrixXd::Zero(v.size(), v.size()); for (Eigen::Index i = 0; i < v.size(); ++i) m(i, i) = v[i]; return m; }
static VectorXd lin(double a, const VectorXd &x, double b, const VectorXd &y) { VectorXd o(x.size()); for (Eigen::Index i = 0; i < x.size(); ++i) o[i] = a * x[i] + b * y[i]; return o; }
static MatrixXd mlin(double a, const MatrixXd &x, double b, const MatrixXd &y) { MatrixXd o(x.rows(), x.cols()); for (Eigen::Index i = 0; i < x.rows(); ++i) for (Eigen::Index j = 0; j < x.cols(); ++j) o(i, j) = a * x(i, j) + b * y(i, j); return o; }
static std::string show(const MD &m) { return "mean " + vp::str(MatrixXd(m.mean)) + " variance " + vp::str(MatrixXd(VectorXd(m.covariance.diagonal()))); }
static std::string show(const JD &m) { return "mean " + vp::str(MatrixXd(m.mean)) + " covariance " + vp::str(m.covariance); }
static void is(const char *n, const MD &m, const VectorXd &mean, const VectorXd &var, double tol = 1e-12) { VP_NAMED(n, vp::mclose(m.mean, mean, tol) && vp::mclose(VectorXd(m.covariance.diagonal()), var, tol), show(m)); }
static void is(const char *n, const JD &m, const VectorXd &mean, const MatrixXd &c, double tol = 1e-12) { VP_NAMED(n, vp::mclose(m.mean, mean, tol) && vp::mclose(m.covariance, c, tol), show(m)); }
VP_TEST(marginals) {
  int n = vp::size(r, 12);
  MD a = gm(r, n), b = gm(r, n);
  double s = r.range(0, 5) ? r.real(-3, 3) : double(r.range(-1, 1));
  vp::describe("marginal arithmetic on a: " + show(a) + " b: " + show(b) + " scale " + vp::str(s));
  const VectorXd av = a.covariance.diagonal(), bv = b.covariance.diagonal();
  const MD a0 = a, b0 = b;
  is("marginal + marginal", a + b, lin(1, a.mean, 1, b.mean), lin(1, av, 1, bv));
  is("marginal - marginal", a - b, lin(1, a.mean, -1, b.mean), lin(1, av, 1, bv));
  is("marginal * scale", a * s, lin(s, a.mean, 0, a.mean), lin(s * s, av, 0, av));
  is("operands unchanged", a, a0.mean, a0.covariance.diagonal()); is("operands unchanged", b, b0.mean, b0.covariance.diagonal());
  is("marginal of means has zero variance", MD(a.mean), a.mean, VectorXd::Zero(n));
  is("marginal from mean and variance", MD(a.mean, av), a.mean, av);
  VP_NAMED("size", a.size() == std::size_t(n), "");
  for (int i = 0; i < n; ++i) {
    VP_NAMED("get_diagonal", a.get_diagonal(i) == av[i], vp::str(i));
    is("element of marginal", a[std::size_t(i)], VectorXd::Constant(1, a.mean[i]), VectorXd::Constant(1, av[i]));
  }
  VP_NAMED("equal to itself", a == a0, "");
  if (n) {
    int i = r.range(0, n - 1);
    MD c = a; c.mean[i] += 0.5; VP_NAMED("equality sees every mean", !(a == c), vp::str(i));
    c = a; c.covariance.diagonal()[i] += 0.5; VP_NAMED("equality sees every variance", !(a == c), vp::str(i));
    c = a; c.mean[i] += 100; VP_NAMED("approximate equality sees means", !a.approximately_equal(c) || n == 0, "");
    c = a; c.covariance.diagonal()[i] += 100; VP_NAMED("approximate equality sees variances", !a.approximately_equal(c), "");
    VP_NAMED("approximately equal to itself", a.approximately_equal(a0), "");
  }
}
VP_TEST(joints) {
  int n = vp::size(r, 9);
  JD a = gj(r, n), b = gj(r, n); MD m = gm(r, n);
  double s = r.range(0, 5) ? r.real(-3, 3) : double(r.range(-1, 1));
  vp::describe("joint arithmetic on a: " + show(a) + " b: " + show(b) + " m: " + show(m) + " scale " + vp::str(s));
  const JD a0 = a;
  MatrixXd md = dg(m.covariance.diagonal());
  is("joint + joint", a + b, lin(1, a.mean, 1, b.mean), mlin(1, a.covariance, 1, b.covariance));
  is("joint - joint", a - b, lin(1, a.mean, -1, b.mean), mlin(1, a.covariance, 1, b.covariance));
  is("joint + marginal", a + m, lin(1, a.mean, 1, m.mean), mlin(1, a.covariance, 1, md));
  is("joint - marginal", a - m, lin(1, a.mean, -1, m.mean), mlin(1, a.covariance, 1, md));
  is("joint * scale", a * s, lin(s, a.mean, 0, a.mean), mlin(s * s, a.covariance, 0, a.covariance));
  is("operands unchanged", a, a0.mean, a0.covariance);
  VectorXd d(n); for (int i = 0; i < n; ++i) d[i] = a.covariance(i, i);
  is("marginal of joint", a.marginal(), a.mean, d);
  VP_NAMED("size", a.size() == std::size_t(n), "");
  for (int i = 0; i < n; ++i) {
    VP_NAMED("get_diagonal of joint", a.get_diagonal(i) == d[i], vp::str(i));
    is("element of joint", a[std::size_t(i)], VectorXd::Constant(1, a.mean[i]), VectorXd::Constant(1, d[i]));
  }
  VP_NAMED("equal to itself", a == a0, "");
  if (n) {
    int i = r.range(0, n - 1), j = r.range(0, n - 1);
    JD c = a; c.mean[i] += 0.5; VP_NAMED("joint equality sees every mean", !(a == c), vp::str(i));
    c = a; c.covariance(i, j) += 0.5; VP_NAMED("joint equality sees every covariance", !(a == c), vp::str(i) + "," + vp::str(j));
    c = a; c.covariance(i, j) += 100; VP_NAMED("approximate joint equality sees covariances", !a.approximately_equal(c), "");
  }
}
VP_TEST(transforms) {
  int n = r.range(1, 7), m = r.range(1, 7);
  JD a = gj(r, n); MD b = gm(r, n);
  if (r.range(0, 3) == 0) b.covariance.diagonal()[r.range(0, n - 1)] = 0;
  MatrixXd A = vp::mat(r, m, n, 2);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (r.range(0, 2) == 0) A(i, j) = 0;
  Eigen::SparseMatrix<double> S(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (A(i, j) != 0) S.insert(i, j) = A(i, j);
  S.makeCompressed();
  vp::describe("matrix " + vp::str(A) + " times joint " + show(a) + " and marginal " + show(b));
  MatrixXd ja = vp::mul(vp::mul(A, a.covariance), vp::T(A)), jb = vp::mul(vp::mul(A, dg(b.covariance.diagonal())), vp::T(A));
  VectorXd ma = vp::mul(A, a.mean), mb = vp::mul(A, b.mean), va(m), vb(m);
  for (int i = 0; i < m; ++i) { va[i] = ja(i, i); vb[i] = jb(i, i); }
  const double t = 1e-8;
  is("dense * joint", (A * a).joint(), ma, ja, t); is("dense * marginal", (A * b).joint(), mb, jb, t);
  is("sparse * joint", (S * a).joint(), ma, ja, t); is("sparse * marginal", (S * b).joint(), mb, jb, t);
  is("marginal of dense * joint", (A * a).marginal(), ma, va, t); is("marginal of dense * marginal", (A * b).marginal(), mb, vb, t);
  is("marginal of sparse * joint", (S * a).marginal(), ma, va, t); is("marginal of sparse * marginal", (S * b).marginal(), mb, vb, t);
  is("converted to joint", JD(A * a), ma, ja, t); is("converted to marginal", MD(A * a), ma, va, t);
  // positive semi-definite covariance
  MatrixXd L = vp::mat(r, n, std::max(1, n - r.range(0, 2)), 1);
  JD p; p.mean = a.mean; p.covariance = vp::mul(L, vp::T(L));
  MatrixXd jp = vp::mul(vp::mul(A, p.covariance), vp::T(A));
  vp::describe("matrix " + vp::str(A) + " times semi-definite joint " + show(p));
  is("dense * semi-definite joint", (A * p).joint(), vp::mul(A, p.mean), jp, 1e-6);
}
VP_MAIN
