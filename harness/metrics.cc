// prediction metrics and scoring rules
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/Stats>
#include <albatross/Evaluation>
namespace vph {
using namespace albatross;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
typedef MarginalDistribution MD;
typedef JointDistribution JD;
double rmse(const V &p, const V &t) { return root_mean_square_error(p, t); }
double rmse_truth(const V &p, const MD &t) { return root_mean_square_error(p, t); }
double sd(const V &x) { return standard_deviation(x); }
double sd_error(const V &p, const V &t) { return standard_deviation(p, t); }
double sd_truth(const V &p, const MD &t) { return standard_deviation(p, t); }
double nll_scalar(double d, double v) { return negative_log_likelihood(d, v); }
double nll_dense(const V &d, const M &c) { return negative_log_likelihood(d, c); }
double nll_ldlt(const V &d, const Eigen::LDLT<M> &f) { return negative_log_likelihood(d, f); }
double nll_diagonal(const V &d, const Eigen::DiagonalMatrix<double, Eigen::Dynamic> &c) { return negative_log_likelihood(d, c); }
double nll_joint(const JD &p, const MD &t) { return negative_log_likelihood(p, t); }
double nll_marginal(const MD &p, const MD &t) { return negative_log_likelihood(p, t); }
double logs(const V &x) { return log_sum(x); }
double chi_squared(const V &d, const M &c) { return chi_squared_cdf(d, c); }
double chi_squared_joint(const JD &p, const MD &t) { return chi_squared_cdf(p, t); }
double entropy(const M &c) { return differential_entropy(c); }
double entropy_ldlt(const Eigen::LDLT<M> &f) { return differential_entropy(f); }
double crps(double m, double s, double y) { return score::crps_normal(m, s, y); }
double abs_1(double m, double s) { return score::detail::expected_abs_normal_1(m, s); }
double abs_2(double m, double s) { return score::detail::expected_abs_normal_2(m, s); }
double errors(const M &s, const V &t, const V &w) { return score::detail::mean_err_norms(s, t, w); }
double pairs(const M &a, const M &b, const V &w) { return score::detail::pairwise_errors_paired(a, b, w); }
M draw(const Eigen::LDLT<M> &f, const V &m, Eigen::Index n, std::default_random_engine &g) { return score::detail::draw_mvn(f, m, n, g); }
M antithetic(Eigen::Index n, const V &m, const Eigen::LDLT<M> &f, std::default_random_engine &g) { return score::detail::antithetic_sample(n, m, f, g); }
double energy(const JD &p, const V &t, const V &w, unsigned seed, Eigen::Index n) { return score::energy_score(p, t, &w, seed, n); }
double energy_unweighted(const JD &p, const V &t, unsigned seed, Eigen::Index n) { return score::energy_score(p, t, nullptr, seed, n); }
double energy_truth(const JD &p, const MD &t, const V &w, unsigned seed, Eigen::Index n) { return score::energy_score(p, t, &w, seed, n); }
double variogram(const JD &p, const V &t, const M &w) { return score::variogram_score(p, t, &w, score::VariogramScoreOrder::cVariogram); }
double madogram(const JD &p, const V &t, const M &w) { return score::variogram_score(p, t, &w, score::VariogramScoreOrder::cMadogram); }
double variogram_truth(const JD &p, const MD &t, const M &w) { return score::variogram_score(p, t, &w, score::VariogramScoreOrder::cVariogram); }
double variogram_unweighted(const JD &p, const V &t) { return score::variogram_score(p, t, nullptr, score::VariogramScoreOrder::cVariogram); }
M principal(const M &a) { return distance::detail::principal_sqrt(a); }
double wasserstein(const JD &a, const JD &b) { return distance::wasserstein_2(a, b); }
}
