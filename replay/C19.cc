#include <albatross/GP>
#include "vp.h"
using namespace albatross;
static const double INF_ = HUGE_VAL;
struct Ref { double lp, lb, ub; bool lg, fx; };
static double npdf(double x, double m, double s) { return std::exp(-0.5 * (x - m) * (x - m) / (s * s)) / (s * std::sqrt(2 * M_PI)); }
static void one(const char *nm, const PriorContainer &p, const Prior &q, double x, const Ref &w, bool check_lp = true) {
  vp::describe(std::string(nm) + " " + q.get_name() + " x=" + vp::str(x));
  auto same = [](double a, double b) { return a == b || vp::close(a, b, 1e-9); };
  for (const Prior *z : {static_cast<const Prior *>(&p), &q}) {
    if (check_lp) VP_NAMED(std::string(nm) + " log_pdf", same(z->log_pdf(x), w.lp), vp::str(z->log_pdf(x)) + " want " + vp::str(w.lp));
    VP_NAMED(std::string(nm) + " lower_bound", z->lower_bound() == w.lb, vp::str(z->lower_bound()));
    VP_NAMED(std::string(nm) + " upper_bound", z->upper_bound() == w.ub, vp::str(z->upper_bound()));
    VP_NAMED(std::string(nm) + " log scale", z->is_log_scale() == w.lg, "");
    VP_NAMED(std::string(nm) + " fixed", z->is_fixed() == w.fx, "");
  }
}
VP_TEST(densities) {
  double lo = r.real(-4, 4), hi = lo + 0.01 + 5 * r.unit(), mu = r.real(), s = std::exp(r.real(-2, 2));
  double xs[] = {lo, hi, lo - 1e-9, hi + 1e-9, (lo + hi) / 2, mu, mu + s, 0., -0.5, r.real(-6, 6), r.real(0.001, 4), 1e-20, 1.};
  for (double x : xs) {
    const double eps = std::pow(2., -52);
    UniformPrior u(lo, hi);
    bool in = x >= lo && x <= hi;
    one("uniform", u, u, x, {in ? std::log(1 / (hi - lo)) : -INF_, lo, hi, false, false});
    double a = std::exp(lo), b = a + (hi - lo);
    LogScaleUniformPrior l(a, b);
    one("log_scale_uniform", l, l, x, {x >= a && x <= b ? -std::log(b - a) : -INF_, a, b, true, false});
    GaussianPrior g(mu, s);
    one("gaussian", g, g, x, {std::log(npdf(x, mu, s)), -INF_, INF_, false, false}, npdf(x, mu, s) > 1e-200);
    PositiveGaussianPrior pg(0., s);
    one("positive_gaussian", pg, pg, x, {std::log(2 * npdf(x, 0, s)), 0., 10 * s, false, false}, x >= 0 && npdf(x, 0, s) > 1e-200);
    PositiveGaussianPrior pg2(mu, s);
    one("positive_gaussian shifted", pg2, pg2, x, {std::log(2 * npdf(x, mu, s)), 0., 10 * s, false, false}, x >= 0 && npdf(x, mu, s) > 1e-200);
    LogNormalPrior ln(mu, s);
    if (x > 1e-3) one("log_normal", ln, ln, x, {std::log(npdf(std::log(x), mu, s) / x), -INF_, INF_, false, false}, npdf(std::log(x), mu, s) > 1e-200);
    PositivePrior pp;
    one("positive", pp, pp, x, {x > 0 ? 0. : -INF_, eps, INF_, false, false});
    NonNegativePrior nn;
    one("non_negative", nn, nn, x, {x >= 0 ? 0. : -INF_, 0., INF_, false, false});
    UninformativePrior un;
    one("uninformative", un, un, x, {0., -INF_, INF_, false, false});
    FixedPrior fx;
    one("fixed", fx, fx, x, {0., -INF_, INF_, false, true});
  }
}
// the density integrates to one over its support (numerical check independent of the closed form)
VP_TEST(normalised) {
  double lo = r.real(-4, 4), hi = lo + 0.1 + 5 * r.unit(), mu = r.real(-1, 1), s = std::exp(r.real(-1, 1));
  auto mass = [](const Prior &p, double a, double b) {
    const int n = 20000;
    double t = 0, h = (b - a) / n;
    for (int i = 0; i < n; ++i) t += std::exp(p.log_pdf(a + (i + .5) * h)) * h;
    return t;
  };
  vp::describe("normalisation lo=" + vp::str(lo) + " hi=" + vp::str(hi) + " mu=" + vp::str(mu) + " s=" + vp::str(s));
  VP_NAMED("uniform mass", vp::close(mass(UniformPrior(lo, hi), lo, hi), 1, 1e-6), "");
  VP_NAMED("gaussian mass", vp::close(mass(GaussianPrior(mu, s), mu - 12 * s, mu + 12 * s), 1, 1e-5), "");
  VP_NAMED("positive gaussian mass", vp::close(mass(PositiveGaussianPrior(0, s), 0, 12 * s), 1, 1e-5), "");
  double t = 0;
  LogNormalPrior ln(mu, s);
  const int n = 20000;
  for (int i = 0; i < n; ++i) { double y = mu - 10 * s + 20 * s * (i + .5) / n; t += std::exp(ln.log_pdf(std::exp(y)) + y) * 20 * s / n; }
  VP_NAMED("log normal mass", vp::close(t, 1, 1e-5), vp::str(t));
}
VP_TEST(totals) {
  ParameterStore ps;
  double want = 0;
  int n = r.range(0, 6);
  for (int i = 0; i < n; ++i) {
    double v = r.real(0.1, 2.), a = r.real(-1, 1), s = std::exp(r.real(-1, 1));
    Parameter p(v);
    switch (r.range(0, 4)) {
    case 0: p.prior = GaussianPrior(a, s); want += std::log(npdf(v, a, s)); break;
    case 1: p.prior = UniformPrior(0., 2.5); want += std::log(1 / 2.5); break;
    case 2: p.prior = FixedPrior(); break;
    case 3: p.prior = LogNormalPrior(a, s); want += std::log(npdf(std::log(v), a, s) / v); break;
    default: p.prior = PositivePrior(); break;
    }
    ps["p" + std::to_string(i)] = p;
  }
  vp::describe("total log likelihood of " + pretty_params(ps) + pretty_priors(ps));
  VP_NAMED("total prior log likelihood", vp::close(parameter_prior_log_likelihood(ps), want, 1e-9), vp::str(parameter_prior_log_likelihood(ps)) + " want " + vp::str(want));
  // equality distinguishes alternatives and parameters
  VP_NAMED("equality", PriorContainer(UniformPrior(0, 1)) == PriorContainer(UniformPrior(0, 1)) && !(PriorContainer(UniformPrior(0, 1)) == PriorContainer(UniformPrior(0, 2))) &&
           !(PriorContainer(GaussianPrior(0, 1)) == PriorContainer(LogNormalPrior(0, 1))), "");
}
VP_MAIN
