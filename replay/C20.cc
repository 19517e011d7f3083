// LIBS: -lz
// C20: prediction metrics and scoring rules against their definitions, for random distributions and truths
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/Stats>
#include <albatross/Evaluation>
#include "vpe.h"
using namespace albatross;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
static JointDistribution p_(const V &m, const M &c);
static const double PI_ = 3.14159265358979323846;
static MarginalDistribution marginal(vp::Rng &r, int n, bool noise) {
  V m = vp::vec(r, n), v(n);
  for (int i = 0; i < n; ++i) v[i] = noise ? (r.range(0, 3) ? r.real(0.01, 4) : 0.) : 0.;
  return MarginalDistribution(m, v);
}
JointDistribution p_(const V &m, const M &c) { return JointDistribution(m, c); }
static M total(const M &c, const MarginalDistribution &t) { M o(c); for (int i = 0; i < c.rows(); ++i) o(i, i) += t.covariance.diagonal()[i]; return o; }
static double dense_nll(const V &d, const M &c) {
  M q = vp::mul(d.transpose(), vp::mul(vp::inv(c), d));
  return 0.5 * (std::log(vp::det(c)) + q(0, 0) + double(d.size()) * std::log(2 * PI_));
}
static double gamma_series(double a, double x) {      // regularised lower incomplete gamma function
  if (x <= 0) return 0;
  double s = 1 / a, t = s;
  for (int k = 1; k < 4000; ++k) { t *= x / (a + k); s += t; if (t < s * 1e-17) break; }
  return s * std::exp(-x + a * std::log(x) - std::lgamma(a));
}
VP_TEST(errors) {
  int n = r.range(1, 8);
  V p = vp::vec(r, n);
  MarginalDistribution t = marginal(r, n, true);
  double s = 0, m = 0, q = 0;
  for (int i = 0; i < n; ++i) { double e = p[i] - t.mean[i]; s += e * e; m += e / n; }
  for (int i = 0; i < n; ++i) q += (p[i] - t.mean[i] - m) * (p[i] - t.mean[i] - m);
  { std::ostringstream os; os.precision(17); os << "prediction " << vp::str(p) << " truth " << vp::str(t.mean); vp::describe(os.str()); }
  double rm = std::sqrt(s / n), sd = n == 1 ? 0 : std::sqrt(q / (n - 1));
  VP_NAMED("root mean square error (truth)", !(!vp::close(root_mean_square_error(p, t), rm, 1e-10)), "");
  VP_NAMED("root mean square error", !(!vp::close(root_mean_square_error(p, t.mean), rm, 1e-10)), "");
  VP_NAMED("RootMeanSquareError", !(!vp::close(RootMeanSquareError()(p, t), rm, 1e-10)), "");
  VP_NAMED("standard deviation (truth)", !(std::fabs(standard_deviation(p, t) - sd) > 1e-9 * (1 + sd)), "");
  VP_NAMED("standard deviation", !(std::fabs(standard_deviation(p, t.mean) - sd) > 1e-9 * (1 + sd)), "");
  VP_NAMED("StandardDeviation", !(std::fabs(StandardDeviation()(p, t) - sd) > 1e-9 * (1 + sd)), "");
  VP_NAMED("standard deviation of nothing", !(!std::isnan(standard_deviation(V(V::Zero(0))))), "");
}
VP_TEST(likelihoods) {
  int n = r.range(1, 6);
  M c = vp::spd(r, n);
  V pm = vp::vec(r, n);
  JointDistribution p(pm, c);
  MarginalDistribution t = marginal(r, n, true), q = marginal(r, n, true);
  V e = pm - t.mean;
  M tc = total(c, t);
  { std::ostringstream os; os.precision(17); os << "mean " << vp::str(pm) << " covariance " << vp::str(c) << " truth " << vp::str(t.mean) << " noise " << vp::str(V(t.covariance.diagonal())); vp::describe(os.str()); }
  double x = dense_nll(e, tc);
  VP_NAMED("joint negative log likelihood", !(!vp::close(negative_log_likelihood(p, t), x, 1e-7)), "");
  VP_NAMED("NegativeLogLikelihood<Joint>", !(!vp::close(NegativeLogLikelihood<JointDistribution>()(p, t), x, 1e-7)), "");
  VP_NAMED("dense negative log likelihood", !(!vp::close(albatross::negative_log_likelihood(e, tc), x, 1e-7)), "");
  Eigen::LDLT<M> f(tc);
  VP_NAMED("factored negative log likelihood", !(!vp::close(albatross::negative_log_likelihood(e, f), x, 1e-7)), "");
  V qv(n), d = q.mean - t.mean;
  double y = 0;
  V both(n);
  for (int i = 0; i < n; ++i) { qv[i] = q.covariance.diagonal()[i] + 0.3; both[i] = qv[i] + t.covariance.diagonal()[i]; y += 0.5 * (d[i] * d[i] / both[i] + std::log(2 * PI_ * both[i])); }
  MarginalDistribution qq(q.mean, qv);
  VP_NAMED("marginal negative log likelihood", !(!vp::close(negative_log_likelihood(qq, t), y, 1e-8)), "");
  VP_NAMED("NegativeLogLikelihood<Marginal>", !(!vp::close(NegativeLogLikelihood<MarginalDistribution>()(qq, t), y, 1e-8)), "");
  VP_NAMED("scalar negative log likelihood", !(!vp::close(albatross::negative_log_likelihood(d[0], both[0]), 0.5 * (d[0] * d[0] / both[0] + std::log(2 * PI_ * both[0])), 1e-9)), "");
  double ld = std::log(vp::det(tc));
  VP_NAMED("differential entropy", !(!vp::close(differential_entropy(tc), 0.5 * (n * (1 + std::log(2 * PI_)) + ld), 1e-8)), "");
  VP_NAMED("differential entropy of a factorisation", !(!vp::close(differential_entropy(f), 0.5 * (n * (1 + std::log(2 * PI_)) + ld), 1e-8)), "");
  M ma = vp::mul(e.transpose(), vp::mul(vp::inv(tc), e));
  double cdf = gamma_series(n / 2., ma(0, 0) / 2);
  VP_NAMED("chi squared", !(std::fabs(chi_squared_cdf(p, t) - cdf) > 1e-5), "");
  VP_NAMED("ChiSquaredCdf", !(std::fabs(ChiSquaredCdf()(p, t) - cdf) > 1e-5), "");
}
VP_TEST(univariate) {
  double m = r.real(-4, 4), s = r.range(0, 9) ? r.real(0.05, 4) : 0., y = r.real(-5, 5);
  { std::ostringstream os; os.precision(17); os << "mu " << m << " sigma " << s << " y " << y; vp::describe(os.str()); }
  // integral of the squared difference of the distribution functions
  double w = 0;
  if (s > 0) {
    double lo = std::min(m - 9 * s, y) - 1, hi = std::max(m + 9 * s, y) + 1;
    auto part = [&](double a, double b, double step) { const int k = 4000; double h = (b - a) / k, o = 0; for (int i = 0; i <= k; ++i) { double x = a + i * h, F = 0.5 * std::erfc(-(x - m) / s / std::sqrt(2.)) - step; o += F * F * (i == 0 || i == k ? 1 : i % 2 ? 4 : 2); } return o * h / 3; };
    w = part(lo, y, 0) + part(y, hi, 1);
  } else w = std::fabs(y - m);
  VP_NAMED("continuous ranked probability score", !(std::fabs(score::crps_normal(m, s, y) - w) > 1e-6 * (1 + w)), "");
  VP_NAMED("score of a point mass", !(score::crps_normal(m, -s, y) != std::fabs(y - m)), "");
  VP_NAMED("score of a distribution which is not finite", !(!std::isnan(score::crps_normal(m, std::numeric_limits<double>::infinity(), y))), "");
  double z = s > 0 ? m / s : 0;
  double ea = s > 0 ? s * std::sqrt(2 / PI_) * std::exp(-z * z / 2) + m * std::erf(z / std::sqrt(2.)) : std::fabs(m);
  if (s > 0) {
    double k = std::pow(10., -r.range(0, 12));      // scales with the variable
    VP_NAMED("expected absolute value of a small variable", !(std::fabs(score::detail::expected_abs_normal_1(m * k, s * k) - ea * k) > 1e-9 * ea * k), "");
  }
  VP_NAMED("expected absolute value", !(std::fabs(score::detail::expected_abs_normal(m, s, score::VariogramScoreOrder::cMadogram) - ea) > 1e-9 * (1 + ea)), "");
  VP_NAMED("expected square", !(std::fabs(score::detail::expected_abs_normal(m, s, score::VariogramScoreOrder::cVariogram) - m * m - s * s) > 1e-9 * (1 + m * m + s * s)), "");
}
VP_TEST(variogram) {
  int n = r.range(1, 6);
  M c = vp::spd(r, n), w(n, n);
  V m = vp::vec(r, n);
  MarginalDistribution t = marginal(r, n, true);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w(i, j) = r.range(0, 4) ? r.real(0, 2) : 0;
  JointDistribution p(m, c);
  { std::ostringstream os; os.precision(17); os << "mean " << vp::str(m) << " covariance " << vp::str(c) << " truth " << vp::str(t.mean) << " noise " << vp::str(V(t.covariance.diagonal())) << " weights " << vp::str(w); vp::describe(os.str()); }
  for (int noisy = 0; noisy < 2; ++noisy) for (int weighted = 0; weighted < 2; ++weighted) for (int order = 1; order < 3; ++order) {
    M k = noisy ? total(c, t) : c;
    double x = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
      double mu = m[j] - m[i], v = k(i, i) + k(j, j) - 2 * k(i, j), s = std::sqrt(v), d = std::fabs(t.mean[i] - t.mean[j]);
      double e = order == 2 ? mu * mu + v : s * std::sqrt(2 / PI_) * std::exp(-mu * mu / v / 2) + mu * std::erf(mu / s / std::sqrt(2.));
      double q = (order == 2 ? d * d : d) - e;
      x += (weighted ? w(i, j) : 1) * q * q;
    }
    auto o = order == 2 ? score::VariogramScoreOrder::cVariogram : score::VariogramScoreOrder::cMadogram;
    double y = noisy ? score::variogram_score(p, t, weighted ? &w : nullptr, o) : score::variogram_score(p, t.mean, weighted ? &w : nullptr, o);
    VP_NAMED(std::string("variogram score of order " + std::to_string(order) + (noisy ? " of an uncertain truth" : "") + (weighted ? " with weights" : "")), !(std::fabs(x - y) > 1e-8 * (1 + x)), "");
  }
}
VP_TEST(draws) {
  int n = r.range(1, 5);
  M c = vp::spd(r, n);
  if (n > 2 && r.range(0, 1)) c(n - 2, n - 2) += 30;       // pivoting which is not an involution
  V m = vp::vec(r, n);
  unsigned seed = unsigned(r.range(1, 100000));
  { std::ostringstream os; os.precision(17); os << "mean " << vp::str(m) << " covariance " << vp::str(c) << " seed " << seed; vp::describe(os.str()); }
  Eigen::LDLT<M> f(c), unit(M(M::Identity(n, n)));
  int k = n;
  std::default_random_engine g(seed), h(seed);
  M x = score::detail::draw_mvn(f, m, k, g), z = score::detail::draw_mvn(unit, V(V::Zero(n)), k, h);
  VP_NAMED("size of the draws", !(x.rows() != n || x.cols() != k), "");
  if (std::fabs(vp::det(z)) > 0.05) {
    M u = x;
    for (int j = 0; j < k; ++j) u.col(j) -= m;
    M t = vp::mul(u, vp::inv(z));
    VP_NAMED("covariance of the draws", !(!vp::mclose(vp::mul(t, t.transpose()), c, 1e-6)), "");
  }
  long q = r.range(2, 9);
  std::default_random_engine g2(seed);
  M a = score::detail::antithetic_sample(q, m, f, g2);
  VP_NAMED("number of samples", !(a.cols() < q || a.cols() % 2), "");
  long half = a.cols() / 2;
  for (long j = 0; j < half; ++j) {
    bool found = false;
    for (long l = 0; l < a.cols(); ++l) if (l != j && vp::mclose(a.col(j) + a.col(l), 2 * m, 1e-9)) found = true;
    VP_NAMED("reflected samples", !(!found), "");
  }
  // means of norms
  M s = vp::mat(r, n, 4), b = vp::mat(r, n, 4);
  V w(n), y = vp::vec(r, n);
  for (int i = 0; i < n; ++i) w[i] = r.range(0, 3) ? r.real(0, 3) : 0;
  double e = 0, d = 0;
  for (int j = 0; j < 4; ++j) { double p = 0, o = 0; for (int i = 0; i < n; ++i) { p += w[i] * (s(i, j) - y[i]) * (s(i, j) - y[i]); o += w[i] * (s(i, j) - b(i, j)) * (s(i, j) - b(i, j)); } e += std::sqrt(p) / 4; d += std::sqrt(o) / 4; }
  VP_NAMED("mean norm of the errors", !(std::fabs(score::detail::mean_err_norms(s, y, w) - e) > 1e-9 * (1 + e)), "");
  VP_NAMED("mean norm of the differences", !(std::fabs(score::detail::pairwise_errors_paired(s, b, w) - d) > 1e-9 * (1 + d)), "");
}
VP_TEST(energy) {
  // E|X - y| - E|X - X'| / 2 estimated with other samples; statistical tolerance
  int n = r.range(1, 4);
  M c = vp::spd(r, n), l(M::Zero(n, n));
  V m = vp::vec(r, n), w(n);
  MarginalDistribution t = marginal(r, n, true);
  bool noisy = r.range(0, 1), weighted = r.range(0, 1);
  if (n > 2) c(n - 2, n - 2) += 10;
  for (int i = 0; i < n; ++i) w[i] = weighted ? r.real(0.1, 6) : 1;
  M k = noisy ? total(c, t) : c;
  { std::ostringstream os; os.precision(17); os << "mean " << vp::str(m) << " covariance " << vp::str(c) << " truth " << vp::str(t.mean) << " noise " << (noisy ? vp::str(V(t.covariance.diagonal())) : std::string("none")) << " weights " << vp::str(w); vp::describe(os.str()); }
  for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) {
    double s = k(i, j);
    for (int q = 0; q < j; ++q) s -= l(i, q) * l(j, q);
    l(i, j) = i == j ? std::sqrt(s) : s / l(j, j);
  }
  const int N = 6000;
  std::mt19937_64 g(unsigned(r.range(1, 1000000)));
  std::normal_distribution<double> nd;
  double e = 0, d = 0, scale = 0;
  V z(n), x(n), o(n);
  for (int s = 0; s < N; ++s) {
    for (int which = 0; which < 2; ++which) {
      for (int i = 0; i < n; ++i) z[i] = nd(g);
      for (int i = 0; i < n; ++i) { double v = m[i]; for (int q = 0; q <= i; ++q) v += l(i, q) * z[q]; (which ? o : x)[i] = v; }
    }
    double a = 0, b = 0;
    for (int i = 0; i < n; ++i) { a += w[i] * (x[i] - t.mean[i]) * (x[i] - t.mean[i]); b += w[i] * (x[i] - o[i]) * (x[i] - o[i]); }
    e += std::sqrt(a) / N; d += std::sqrt(b) / N; scale += (a + b) / N;
  }
  double y = noisy ? score::energy_score(p_(m, c), t, weighted ? &w : nullptr, 22, N) : score::energy_score(p_(m, c), t.mean, weighted ? &w : nullptr, 22, N);
  double tol = 7 * std::sqrt(scale / N);
  VP_NAMED(std::string("energy score " + std::to_string(y) + " instead of about " + std::to_string(e - d / 2)), !(!(std::fabs(y - (e - d / 2)) < tol)), "");
  VP_NAMED("energy score of the same seed differs", !(score::energy_score(p_(m, c), t.mean, nullptr, 5, 40) != score::energy_score(p_(m, c), t.mean, nullptr, 5, 40)), "");
}
static M root(const M &a) {      // Denman-Beavers iteration
  M y = a, z = M::Identity(a.rows(), a.rows());
  for (int i = 0; i < 60; ++i) { M p = 0.5 * (y + vp::inv(z)), q = 0.5 * (z + vp::inv(y)); y = p; z = q; }
  return y;
}
VP_TEST(wasserstein) {
  int n = r.range(1, 4);
  M a = vp::spd(r, n), b = vp::spd(r, n);
  V x = vp::vec(r, n), y = vp::vec(r, n);
  { std::ostringstream os; os.precision(17); os << "means " << vp::str(x) << vp::str(y) << " covariances " << vp::str(a) << vp::str(b); vp::describe(os.str()); }
  double w = 0;
  for (int i = 0; i < n; ++i) w += (x[i] - y[i]) * (x[i] - y[i]) + a(i, i) + b(i, i);
  M q = root(vp::mul(a, b));
  for (int i = 0; i < n; ++i) w -= 2 * q(i, i);
  VP_NAMED("Wasserstein distance", !(std::fabs(distance::wasserstein_2(p_(x, a), p_(y, b)) - w) > 1e-6 * (1 + std::fabs(w))), "");
  VP_NAMED("Wasserstein distance to itself", !(std::fabs(distance::wasserstein_2(p_(x, a), p_(x, a))) > 1e-6), "");
  M s = distance::detail::principal_sqrt(a);
  VP_NAMED("principal square root", !(!vp::mclose(vp::mul(s, s), a, 1e-8) || !vp::mclose(s, s.transpose(), 1e-9)), "");
  V u = vp::vec(r, n);
  M one = vp::mul(u, u.transpose());        // of rank one: eigenvalues which are zero, or negative by rounding
  M h = distance::detail::principal_sqrt(one);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::isnan(h(i, j))) return;      // not clamped: larger than the smallest positive one
  VP_NAMED("principal square root of a singular matrix", !(!vp::mclose(vp::mul(h, h), one, 1e-5)), "");
}
VP_MAIN
