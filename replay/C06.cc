#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
#include <albatross/CovarianceFunctions>
#include "vpe.h"
using namespace albatross;
typedef long double R;
typedef Eigen::VectorXd V;
static const char *kinds[] = {"squared_exponential", "exponential", "matern_32", "matern_52"};
static R formula(int k, R d, R l, R s) {
  if (l <= 0) return 0;
  R z = d / l, a = std::sqrt(R(3)) * z, b = std::sqrt(R(5)) * z;
  switch (k) {
  case 0: return s * s * std::exp(-z * z);
  case 1: return s * s * std::exp(-z);
  case 2: return s * s * (1 + a) * std::exp(-a);
  default: return s * s * (1 + b + b * b / 3) * std::exp(-b);
  }
}
static double direct(int k, double d, double l, double s) {
  switch (k) {
  case 0: return squared_exponential_covariance(d, l, s);
  case 1: return exponential_covariance(d, l, s);
  case 2: return matern_32_covariance(d, l, s);
  default: return matern_52_covariance(d, l, s);
  }
}
static bool near(double got, R want, R scale, R tol = 1e-11L) { return std::fabs(R(got) - want) <= tol * (scale + std::fabs(want)) || got == double(want); }
static double pos(vp::Rng &r) { return r.range(0, 5) ? r.real(0.01, 5) : std::pow(10., r.real(-6, 6)); }
static double length(vp::Rng &r) { int k = r.range(0, 9); return k == 0 ? 0. : k == 1 ? -pos(r) : pos(r); }
static double sigma(vp::Rng &r) { int k = r.range(0, 9); return k == 0 ? 0. : k == 1 ? -pos(r) : pos(r); }
struct X { double v; bool operator==(const X &o) const { return v == o.v; } };
struct Metric : public DistanceMetric { std::string get_name() const override { return "m"; } double operator()(const X &a, const X &b) const { return std::fabs(std::sin(a.v) - std::sin(b.v)) + std::fabs(a.v - b.v); } };
template <typename D, typename F> static double kernel(int k, double l, double s, const F &x, const F &y) {
  switch (k) {
  case 0: return SquaredExponential<D>(l, s)(x, y);
  case 1: return Exponential<D>(l, s)(x, y);
  case 2: return Matern32<D>(l, s)(x, y);
  default: return Matern52<D>(l, s)(x, y);
  }
}
VP_TEST(radial) {
  int k = r.range(0, 3);
  double l = length(r), s = sigma(r), d = r.range(0, 5) ? pos(r) * (l > 0 && r.coin() ? l : 1) : 0., e = d + (r.coin() ? pos(r) : r.coin() ? 0. : 1e-9);
  vp::describe(std::string(kinds[k]) + " at distance " + vp::str(d) + " and " + vp::str(e) + " length scale " + vp::str(l) + " sigma " + vp::str(s));
  double c = direct(k, d, l, s), ce = direct(k, e, l, s), s2 = s * s;
  VP_NAMED("formula", near(c, formula(k, d, l, s), 1e-195L, 1e-9L) || std::fabs(c) < 1e-200, vp::str(c) + " instead of " + vp::str(double(formula(k, d, l, s))));
  VP_NAMED("never negative", c >= 0, vp::str(c));
  VP_NAMED("never above sigma squared", c <= s2 * (1 + 1e-14), vp::str(c));
  VP_NAMED("non-increasing", ce <= c * (1 + 1e-11) + 1e-200, vp::str(c) + " then " + vp::str(ce));
  VP_NAMED("sigma squared at zero distance", direct(k, 0., l, s) == (l <= 0 ? 0. : s2), vp::str(direct(k, 0., l, s)));
  double c1 = k == 0 ? squared_exponential_covariance(d, l) : k == 1 ? exponential_covariance(d, l) : k == 2 ? matern_32_covariance(d, l) : matern_52_covariance(d, l);
  VP_NAMED("unit sigma by default", c1 == direct(k, d, l, 1.), vp::str(c1));
}
VP_TEST(kernels) {
  int k = r.range(0, 3);
  double l = length(r), s = sigma(r);
  X a{r.real(-4, 4)}, b{r.range(0, 4) ? r.real(-4, 4) : a.v};
  vp::describe(std::string(kinds[k]) + " of features " + vp::str(a.v) + " and " + vp::str(b.v) + " length scale " + vp::str(l) + " sigma " + vp::str(s));
  double c = kernel<Metric>(k, l, s, a, b), cc = kernel<Metric>(k, l, s, b, a);
  VP_NAMED("function of the distance", near(c, formula(k, Metric()(a, b), l, s), 1e-195L, 1e-9L), vp::str(c));
  VP_NAMED("symmetric", c == cc, vp::str(c) + " and " + vp::str(cc));
  double f = kernel<EuclideanDistance>(k, l, s, a.v, b.v);
  VP_NAMED("Euclidean distance of numbers", near(f, formula(k, std::fabs(R(a.v) - R(b.v)), l, s), 1e-195L, 1e-9L), vp::str(f));
  std::vector<X> xs{a, b, {r.real()}};
  Eigen::MatrixXd m = k == 0 ? SquaredExponential<Metric>(l, s)(xs) : Exponential<Metric>(l, s)(xs);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VP_NAMED("matrix", near(m(i, j), formula(k ? 1 : 0, Metric()(xs[i], xs[j]), l, s), 1e-195L, 1e-9L), "");
}
VP_TEST(metrics) {
  int n = r.range(1, 5);
  V x = vp::vec(r, n), y = r.range(0, 5) ? vp::vec(r, n) : V(x * (r.coin() ? 2. : -1.5));
  if (r.range(0, 3) == 0) y = (r.coin() ? 1. : -1.) * (x + std::pow(10., -r.range(1, 8)) * vp::vec(r, n));
  if (x.norm() < 1e-3) x[0] = 1;
  if (y.norm() < 1e-3) y[0] = 1;
  vp::describe("distance of " + vp::str(Eigen::MatrixXd(x)) + " and " + vp::str(Eigen::MatrixXd(y)));
  R xx = 0, yy = 0, xy = 0, dd = 0;
  for (int i = 0; i < n; ++i) { xx += R(x[i]) * x[i]; yy += R(y[i]) * y[i]; xy += R(x[i]) * y[i]; dd += (R(x[i]) - y[i]) * (R(x[i]) - y[i]); }
  VP_NAMED("Euclidean", near(EuclideanDistance()(x, y), std::sqrt(dd), 1e-3L), vp::str(EuclideanDistance()(x, y)));
  VP_NAMED("Euclidean symmetric", EuclideanDistance()(x, y) == EuclideanDistance()(y, x), "");
  VP_NAMED("radial", near(RadialDistance()(x, y), std::fabs(std::sqrt(xx) - std::sqrt(yy)), 1), vp::str(RadialDistance()(x, y)));
  R c = xy / std::sqrt(xx * yy), angle = std::acos(std::max(R(-1), std::min(R(1), c)));
  double a = AngularDistance()(x, y);
  VP_NAMED("angle", near(a, angle, 1, 1e-6L), vp::str(a) + " instead of " + vp::str(double(angle)));
  // half angle formula, accurate for small angles: |x/|x| - y/|y|| = 2 sin(angle / 2)
  R chord = 0, anti = 0;
  for (int i = 0; i < n; ++i) { R u = x[i] / std::sqrt(xx), w = y[i] / std::sqrt(yy); chord += (u - w) * (u - w); anti += (u + w) * (u + w); }
  R fine = 2 * std::atan2(std::sqrt(chord), std::sqrt(anti)), off = std::min(fine, R(M_PI) - fine);
  VP_NAMED("small angle", std::fabs(a - fine) <= 1e-7L + 1e-3L * off, vp::str(a) + " instead of " + vp::str(double(fine)));
  VP_NAMED("angle is in range", a >= 0 && a <= M_PI, vp::str(a));
  VP_NAMED("angle symmetric", near(AngularDistance()(y, x), a, 1), "");
  double l = pos(r), s = pos(r), e = Exponential<AngularDistance>(l, s)(x, y);
  VP_NAMED("exponential of the angle", std::fabs(e - double(formula(1, a, l, s))) <= 1e-9 * s * s, vp::str(e));
  std::vector<double> p;
  for (int i = 0; i < r.range(0, 6); ++i) p.push_back(r.real());
  Eigen::MatrixXd D = distance_matrix(EuclideanDistance(), p);
  VP_NAMED("distance matrix shape", D.rows() == int(p.size()) && D.cols() == int(p.size()), "");
  for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t j = 0; j < p.size(); ++j) VP_NAMED("distance matrix", near(D(i, j), std::fabs(R(p[i]) - p[j]), 0), "");
}
template <int N> static void poly(vp::Rng &r) {
  Polynomial<N> k(r.coin() ? 1. : 0.3);
  double x = r.real(-2, 2), y = r.range(0, 3) ? r.real(-2, 2) : 0.;
  R want = 0, xp = 1, yp = 1, wrong = 0;
  std::string txt;
  for (int i = 0; i <= N; ++i) {
    double s = r.real(0, 3);
    if (r.range(0, 3)) set_param_value("sigma_polynomial_" + std::to_string(i), s, &k); else s = k.get_param_value("sigma_polynomial_" + std::to_string(i));
    want += R(s) * s * xp * yp; xp *= x; yp *= y; wrong += R(s) * s * std::fabs(xp * yp); txt += vp::str(s) + " ";
  }
  vp::describe("polynomial of degree " + std::to_string(N) + " sigmas " + txt + "at " + vp::str(x) + " and " + vp::str(y));
  VP_NAMED("polynomial", near(k(x, y), want, 1 + wrong), vp::str(k(x, y)) + " instead of " + vp::str(double(want)));
  VP_NAMED("polynomial symmetric", near(k(y, x), want, 1 + wrong), "");
}
VP_TEST(terms) {
  poly<0>(r); poly<1>(r); poly<2>(r); poly<4>(r);
  double s = sigma(r), x = r.real(), y = r.range(0, 3) ? r.real() : x;
  int a = r.range(0, 3), b = r.range(0, 3);
  vp::describe("terms with sigma " + vp::str(s) + " at " + vp::str(x) + ", " + vp::str(y) + " and " + std::to_string(a) + ", " + std::to_string(b));
  Constant c(s);
  VP_NAMED("constant", c(x, y) == s * s && c(x, x) == s * s && c(X{x}, y) == s * s, vp::str(c(x, y)));
  IndependentNoise<double> nd(s);
  IndependentNoise<int> ni(s);
  VP_NAMED("noise", nd(x, y) == (x == y ? s * s : 0.) && ni(a, b) == (a == b ? s * s : 0.), vp::str(nd(x, y)));
  VP_NAMED("no noise across nearly equal points", nd(x, std::nextafter(x, 9.)) == 0., "");
  Nugget g;
  VP_NAMED("nugget default", g(x, y) == (x == y ? 1e-8 * 1e-8 : 0.), vp::str(g(x, y)));
  set_param_value("nugget_sigma", s, &g);
  VP_NAMED("nugget", g(x, y) == (x == y ? s * s : 0.) && g(a, b) == (a == b ? s * s : 0.), vp::str(g(x, y)));
  LinearMean m;
  double sl = r.real(), of = r.real();
  set_param_value("slope", sl, &m); set_param_value("offset", of, &m);
  VP_NAMED("linear mean", near(m(x), R(sl) * x + of, 1), vp::str(m(x)));
  VP_NAMED("zero mean", ZeroMean()(x) == 0. && ZeroMean()(a) == 0., "");
}
struct Scale : public ScalingFunction { std::string get_name() const override { return "s"; } double _call_impl(const X &x) const { return x.v > 3 ? 0. : 1 + x.v * x.v; } };
struct Y { double v; };
struct Other : public CovarianceFunction<Other> {
  double _call_impl(const X &x, const X &y) const { return std::cos(x.v) * std::cos(y.v) + 2; }
  double _call_impl(const X &x, const Y &y) const { return std::cos(x.v) * y.v; }
  double _call_impl(const Y &x, const Y &y) const { return x.v * y.v; }
};
VP_TEST(scaling) {
  X x{r.real(-4, 4)}, y{r.real(-4, 4)};
  Y u{r.real()}, w{r.real()};
  vp::describe("scaling at " + vp::str(x.v) + ", " + vp::str(y.v) + ", " + vp::str(u.v) + ", " + vp::str(w.v));
  ScalingTerm<Scale> t{Scale()};
  Other o;
  Scale f;
  double fx = f._call_impl(x), fy = f._call_impl(y);
  VP_NAMED("scaling", near(t(x, y), R(fx) * fy, 0), vp::str(t(x, y)));
  VP_NAMED("scaling of one side", near(t(x, u), fx, 0) && near(t(u, x), fx, 0), "");
  auto a = t * o;
  auto b = o * t;
  VP_NAMED("scaled", near(a(x, y), R(fx) * o(x, y) * fy, 0) && near(b(x, y), R(fx) * o(x, y) * fy, 0), vp::str(a(x, y)));
  VP_NAMED("scaled on one side", near(a(x, u), R(fx) * o(x, u), 0) && near(b(x, u), R(fx) * o(x, u), 0) && near(a(u, x), R(fx) * o(x, u), 0) && near(b(u, x), R(fx) * o(x, u), 0), vp::str(a(x, u)));
  VP_NAMED("not scaled", a(u, w) == o(u, w) && b(u, w) == o(u, w), vp::str(a(u, w)));
}
VP_TEST(length_scales) {
  int k = r.range(0, 3);
  double d = pos(r), prior = pos(r), ratio = r.range(0, 3) ? r.real(0.02, 0.98) : std::pow(10., r.real(-3, -1)), inc = prior * ratio;
  auto derive = [&](double i) { return k == 0 ? derive_squared_exponential_length_scale(d, prior, i) : k == 1 ? derive_exponential_length_scale(d, prior, i) : k == 2 ? derive_matern_32_length_scale(d, prior, i) : derive_matern_52_length_scale(d, prior, i); };
  auto member = [&](double i) { return k == 0 ? SquaredExponential<Metric>().derive_length_scale(d, prior, i) : k == 1 ? Exponential<Metric>().derive_length_scale(d, prior, i) : k == 2 ? Matern32<Metric>().derive_length_scale(d, prior, i) : Matern52<Metric>().derive_length_scale(d, prior, i); };
  vp::describe(std::string(kinds[k]) + " length scale for an increase of " + vp::str(inc) + " over " + vp::str(d) + " with sigma " + vp::str(prior));
  double l = derive(inc);
  R q = formula(k, d, l, 1), got = prior * std::sqrt(1 - q * q);
  VP_NAMED("length scale gives the increase", near(double(got), inc, 0, 1e-5L), "length scale " + vp::str(l) + " increases by " + vp::str(double(got)));
  VP_NAMED("member function", member(inc) == l, "");
  double eq = process_noise_equivalent([&](double x) { return direct(k, x, l, prior); }, d);
  VP_NAMED("noise equivalent", near(eq, got, 1e-7L * prior, 1e-4L), vp::str(eq) + " instead of " + vp::str(double(got)));
  VP_NAMED("unreachable increase", near(derive(prior * r.real(1, 2)), d * 1e-7L, 0) && near(derive(0.), d * 1e7L, 0) && near(derive(-1.), d * 1e7L, 0), "");
}
VP_MAIN
