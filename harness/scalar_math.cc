#include <albatross/Core>
#include <albatross/Stats>
namespace vph {
using namespace albatross;
double log_pdf(double d, double v) { return albatross::gaussian::log_pdf(d, v); }
double pdf(double d, double v) { return albatross::gaussian::pdf(d, v); }
double chi2_safe(double x, double k) { return albatross::details::chi_squared_cdf_safe(x, k); }
double chi2_int(double x, int k) { return albatross::chi_squared_cdf(x, k); }
double chi2_size(double x, std::size_t k) { return albatross::chi_squared_cdf(x, k); }
double chi2_dbl(double x, double k) { return albatross::chi_squared_cdf(x, k); }
double chi2_dev(double d, double v, std::size_t k) { return albatross::chi_squared_cdf(d, v, k); }
double ig(double a, double z) { return albatross::incomplete_gamma(a, z); }
double ig_cf(double a, double z) { return albatross::details::incomplete_gamma_continuous_fraction(a, z); }
double ig_cf_den(double a, double z) { return albatross::details::incomplete_gamma_continuous_fraction(a, z, std::size_t(1)); }
double ig_num(double a, double z, std::size_t k) { return albatross::details::incomplete_gamma_continuous_fraction_numerator(a, z, k); }
std::pair<double,double> ig_bounds(double a, double z) { return albatross::details::incomplete_gamma_quadrature_bounds(a, z); }
double ig_quad_fn(double x, double a, double l) { return albatross::details::incomplete_gamma_quadrature_fn(x, a, l); }
double ks(const std::vector<double> &s) { return albatross::uniform_ks_test(s); }

double uniform_pdf(const UniformPrior &p, double x) { return p.log_pdf(x); }
double uniform_lb(const UniformPrior &p) { return p.lower_bound(); }
double uniform_ub(const UniformPrior &p) { return p.upper_bound(); }
double lsu_pdf(const LogScaleUniformPrior &p, double x) { return p.log_pdf(x); }
double lsu_lb(const LogScaleUniformPrior &p) { return p.lower_bound(); }
double lsu_ub(const LogScaleUniformPrior &p) { return p.upper_bound(); }
bool lsu_log(const LogScaleUniformPrior &p) { return p.is_log_scale(); }
double gaussian_pdf(const GaussianPrior &p, double x) { return p.log_pdf(x); }
double gaussian_lb(const GaussianPrior &p) { return p.lower_bound(); }
double gaussian_ub(const GaussianPrior &p) { return p.upper_bound(); }
double pos_gaussian_pdf(const PositiveGaussianPrior &p, double x) { return p.log_pdf(x); }
double pos_gaussian_lb(const PositiveGaussianPrior &p) { return p.lower_bound(); }
double lognormal_pdf(const LogNormalPrior &p, double x) { return p.log_pdf(x); }
double positive_pdf(const PositivePrior &p, double x) { return p.log_pdf(x); }
double positive_lb(const PositivePrior &p) { return p.lower_bound(); }
double nonneg_pdf(const NonNegativePrior &p, double x) { return p.log_pdf(x); }
double nonneg_lb(const NonNegativePrior &p) { return p.lower_bound(); }
double uninf_pdf(const UninformativePrior &p, double x) { return p.log_pdf(x); }
double fixed_pdf(const FixedPrior &p, double x) { return p.log_pdf(x); }
bool fixed_fixed(const FixedPrior &p) { return p.is_fixed(); }
bool uniform_fixed(const UniformPrior &p) { return p.is_fixed(); }
bool gaussian_fixed(const GaussianPrior &p) { return p.is_fixed(); }
bool gaussian_log(const GaussianPrior &p) { return p.is_log_scale(); }
// instantiates the virtual tables of the classes received as arguments above
void vtables() {
  UniformPrior a; LogScaleUniformPrior b; GaussianPrior c; PositiveGaussianPrior d; LogNormalPrior e;
  PositivePrior f; NonNegativePrior g; UninformativePrior h; FixedPrior i;
}
}
namespace vph {
double pc_log_pdf(const PriorContainer &p, double x) { return p.log_pdf(x); }
double pc_lb(const PriorContainer &p) { return p.lower_bound(); }
double pc_ub(const PriorContainer &p) { return p.upper_bound(); }
bool pc_log(const PriorContainer &p) { return p.is_log_scale(); }
bool pc_fixed(const PriorContainer &p) { return p.is_fixed(); }
PriorContainer pc_from_uniform(const UniformPrior &p) { return PriorContainer(p); }
PriorContainer pc_assign_gaussian(const GaussianPrior &p) { PriorContainer c; c = p; return c; }
PriorContainer pc_copy(const PriorContainer &p) { return p; }
}
