#include <albatross/Core>
#include <albatross/Stats>
#include <boost/math/special_functions/gamma.hpp>
#include "vp.h"
#include <algorithm>
using namespace albatross;
static double ref_cdf(double x, double k) { return x <= 0 ? 0. : boost::math::gamma_p(0.5 * k, 0.5 * x); }
static void chi(double x, double k, bool integral) {
  vp::describe("chi_squared_cdf x=" + vp::str(x) + " dof=" + vp::str(k));
  double want = k == 0 ? 1. : ref_cdf(x, k);
  double tol = 1e-6;
  double got = chi_squared_cdf(x, k);
  VP_NAMED("chi_squared_cdf value", std::fabs(got - want) <= tol, vp::str(got) + " want " + vp::str(want));
  VP_NAMED("chi_squared_cdf range", got >= 0. && got <= 1. + 1e-9, vp::str(got));
  if (integral) {
    VP_NAMED("chi_squared_cdf int overload", vp::close(chi_squared_cdf(x, int(k)), got, 1e-12), "");
    VP_NAMED("chi_squared_cdf size overload", vp::close(chi_squared_cdf(x, std::size_t(k)), got, 1e-12), "");
    double var = 0.5 + k;
    VP_NAMED("chi_squared_cdf deviation overload", vp::close(chi_squared_cdf(std::sqrt(x * var), var, std::size_t(k)), got, 1e-6), "");
  }
}
VP_TEST(chi_grid) {
  if (round == 0) {
    for (int k = 0; k <= 60; ++k)
      for (double x : {0., 1e-300, 1e-17, 1e-9, 1e-4, .01, .1, .5, 1., 2., 3.7, 5., 9.9, 17., 30., 55., 100., 300.}) chi(x, k, true);
    VP_NAMED("nan", std::isnan(chi_squared_cdf(NAN, 3.)), "");
    VP_NAMED("negative", std::isnan(chi_squared_cdf(-1., 3.)), "");
    VP_NAMED("infinity", chi_squared_cdf(HUGE_VAL, 3.) == 1., "");
    VP_NAMED("no degrees of freedom", chi_squared_cdf(0., 0.) == 1. && chi_squared_cdf(0., std::size_t(0)) == 1., "");
    VP_NAMED("zero", chi_squared_cdf(0., 4.) == 0., "");
  }
  for (int i = 0; i < 50; ++i) {
    double k = r.coin() ? r.range(1, 200) : r.real(0.05, 80);
    double x = k * std::exp(r.real(-3, 1.5));
    if (r.range(0, 20) == 0) { k = r.range(200, 20000); x = k + std::sqrt(2 * k) * r.real(-4, 4); }
    chi(x, k, k == std::floor(k));
  }
}
VP_TEST(incomplete_gamma_values) {
  for (int i = 0; i < 50; ++i) {
    double a = r.coin() ? r.real(0.05, 10.5) : r.real(9, 300), z = a * std::exp(r.real(-3, 1.5));
    vp::describe("incomplete_gamma a=" + vp::str(a) + " z=" + vp::str(z));
    double got = incomplete_gamma(a, z), want = boost::math::gamma_p(a, z);
    VP_NAMED("incomplete_gamma", std::fabs(got - want) < 1e-6, vp::str(got) + " want " + vp::str(want));
  }
  VP_NAMED("incomplete_gamma zero shape", incomplete_gamma(0., 1.) == 1., "");
  VP_NAMED("incomplete_gamma zero", incomplete_gamma(2., 0.) == 0., "");
  VP_NAMED("incomplete_gamma invalid", std::isnan(incomplete_gamma(-1., 1.)) && std::isnan(incomplete_gamma(NAN, 1.)), "");
}
VP_TEST(monotone) {
  double k = r.range(1, 120), x = 0, prev = 0;
  for (int i = 0; i < 60; ++i) {
    x += r.unit() * k / 10;
    vp::describe("monotone chi_squared_cdf x=" + vp::str(x) + " dof=" + vp::str(k));
    double c = chi_squared_cdf(x, k);
    VP_NAMED("chi_squared_cdf monotone", c >= prev - 1e-6, vp::str(c) + " < " + vp::str(prev));
    prev = c;
  }
}
VP_TEST(chi_matrix) {
  int n = r.range(1, 6);
  Eigen::MatrixXd A(n, n);
  Eigen::VectorXd d(n);
  for (int i = 0; i < n; ++i) { d[i] = r.real(); for (int j = 0; j < n; ++j) A(i, j) = r.real(); }
  Eigen::MatrixXd C = A * A.transpose() + 0.3 * Eigen::MatrixXd::Identity(n, n);
  vp::describe("chi_squared_cdf d=" + vp::str(d.transpose()) + " C=" + vp::str(C));
  double q = d.dot(C.fullPivLu().solve(d));
  double got = chi_squared_cdf(d, C);
  VP_NAMED("chi_squared_cdf matrix", std::fabs(got - ref_cdf(q, n)) < 1e-6, vp::str(got));
}
VP_TEST(gaussian_density) {
  double d = r.real(-5, 5), v = std::exp(r.real(-6, 6));
  vp::describe("gaussian d=" + vp::str(d) + " v=" + vp::str(v));
  double want = std::exp(-0.5 * d * d / v) / std::sqrt(2 * M_PI * v);
  VP_NAMED("gaussian pdf", vp::close(gaussian::pdf(d, v), want, 1e-12), vp::str(gaussian::pdf(d, v)));
  double wl = -0.5 * d * d / v - 0.5 * std::log(2 * M_PI * v);
  VP_NAMED("gaussian log pdf", vp::close(gaussian::log_pdf(d, v), wl, 1e-12), vp::str(gaussian::log_pdf(d, v)));
}
VP_TEST(ks) {
  int n = round == 0 ? 0 : r.range(1, 12);
  std::vector<double> s;
  for (int i = 0; i < n; ++i) s.push_back(r.range(0, 5) == 0 && !s.empty() ? s.back() : (r.range(0, 6) == 0 ? double(r.coin()) : std::pow(r.unit(), r.range(1, 3))));
  vp::describe("uniform_ks_test " + vp::str(s));
  // sup over x of |F_n(x) - x|: attained at (or just before) a sample
  double want = 0;
  for (double x : s) {
    int le = 0, lt = 0;
    for (double y : s) { le += y <= x; lt += y < x; }
    want = std::max({want, std::fabs(double(le) / n - x), std::fabs(x - double(lt) / n)});
  }
  auto copy = s;
  double got = uniform_ks_test(s);
  VP_NAMED("uniform_ks_test", vp::close(got, want, 1e-12), vp::str(got) + " want " + vp::str(want));
  VP_NAMED("uniform_ks_test input", copy == s, "");
}
VP_TEST(quadrature_table) {
  if (round) return;
  // Gauss-Legendre with 50 points integrates polynomials up to degree 99 exactly on [-1, 1]
  for (int deg = 0; deg <= 99; ++deg) {
    long double sum = 0, mass = 0;
    for (std::size_t i = 0; i < details::gauss_legendre_50_points.size(); ++i) {
      long double p0 = 1, x = details::gauss_legendre_50_points[i], p1 = x;
      for (int k = 1; k < deg; ++k) { long double p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; }
      sum += details::gauss_legendre_50_weights[i] * (deg == 0 ? 1 : p1);
      mass += details::gauss_legendre_50_weights[i];
    }
    vp::describe("gauss legendre degree " + std::to_string(deg));
    VP_NAMED("quadrature nodes and weights", std::fabs(double(sum) - (deg == 0 ? 2. : 0.)) < 1e-12, vp::str(double(sum)));
  }
}
VP_MAIN
