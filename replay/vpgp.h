// A Gaussian process over numbered things with table lookups as covariance and mean, and conditioning done by hand.
#ifndef VP_GP_H
#define VP_GP_H
#include <albatross/GP>
#include <albatross/utils/AsyncUtils>
#include "vpe.h"
using namespace albatross;
using Eigen::MatrixXd; using Eigen::VectorXd;
// an arbitrary positive definite covariance between numbered things, extra (correlated) covariance between measurements of them
static MatrixXd TK, TN; static VectorXd TM, TMM;
struct X { int v; bool operator==(const X &o) const { return v == o.v; } };
typedef Measurement<X> MX;
struct Signal : public CovarianceFunction<Signal> { double _call_impl(const X &x, const X &y) const { return TK(x.v, y.v); } };
struct Extra : public CovarianceFunction<Extra> { double _call_impl(const X &x, const X &y) const { return TN(x.v, y.v); } };
typedef SumOfCovarianceFunctions<Signal, MeasurementOnly<Extra>> K;
struct M : public MeanFunction<M> {
  double _call_impl(const X &x) const { return TM[x.v]; }
  double _call_impl(const MX &x) const { return TMM[x.value.v]; }
};
typedef GaussianProcessRegression<K, M> Model;
static MatrixXd gen(vp::Rng &r, int n) {
  MatrixXd a = vp::spd(r, n);
  if (r.coin()) { std::vector<double> s; for (int i = 0; i < n; ++i) s.push_back(std::pow(10., r.range(-1, 1))); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) *= s[std::size_t(i)] * s[std::size_t(j)]; }
  return a;
}
struct Post { VectorXd mean; MatrixXd cov; };
// prior mean / covariance of train and test, residual noise
static Post condition(const MatrixXd &Kxx, const MatrixXd &Kxs, const MatrixXd &Kss, const VectorXd &resid, const VectorXd &ms) {
  MatrixXd Ki = vp::inv(Kxx);
  Post p{ms + VectorXd(vp::mul(vp::T(Kxs), vp::mul(Ki, resid)).col(0)), Kss - vp::mul(vp::T(Kxs), vp::mul(Ki, Kxs))};
  return p;
}
static VectorXd variances(vp::Rng &r, int n) { VectorXd v(n); for (int i = 0; i < n; ++i) v[i] = r.range(0, 3) ? r.real(0.01, 2) : 0.; return v; }
static VectorXd dg(const MatrixXd &m) { VectorXd v(m.rows()); for (Eigen::Index i = 0; i < m.rows(); ++i) v[i] = m(i, i); return v; }
static bool near(const MatrixXd &a, const MatrixXd &b, double scale) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) if (!(std::fabs(a(i, j) - b(i, j)) <= 1e-8 * scale)) return false;
  return true;
}
static double big(const MatrixXd &m) { double s = 1; for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) s = std::max(s, std::fabs(m(i, j))); return s; }
template <typename P> static void judge(const std::string &what, const P &pred, const Post &want) {
  double sm = 100 * big(want.mean), sc = 100 * big(want.cov) + big(TK);
  const VectorXd m = pred.mean(); const MarginalDistribution a = pred.marginal(); const JointDistribution j = pred.joint();
  VP_NAMED(what + ": mean", near(m, want.mean, sm), vp::str(m) + " expected " + vp::str(want.mean));
  VP_NAMED(what + ": mean of the marginal", near(a.mean, want.mean, sm), vp::str(a.mean));
  VP_NAMED(what + ": mean of the joint", near(j.mean, want.mean, sm), vp::str(j.mean));
  VP_NAMED(what + ": marginal variance", near(VectorXd(a.covariance.diagonal()), dg(want.cov), sc), vp::str(VectorXd(a.covariance.diagonal())) + " expected " + vp::str(dg(want.cov)));
  VP_NAMED(what + ": joint covariance", near(j.covariance, want.cov, sc), vp::str(j.covariance) + " expected " + vp::str(want.cov));
  VP_NAMED(what + ": size", pred.size() == std::size_t(want.mean.size()), "");
}
static MatrixXd sub(const MatrixXd &m, const std::vector<std::size_t> &a, const std::vector<std::size_t> &b) { return vp::pick(m, a, b); }
#endif
