#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/Dataset>
// clang does not instantiate this one implicitly (it is first used before its definition)
template Eigen::MatrixXd albatross::subset_cols<std::size_t>(const Eigen::MatrixXd &, const std::vector<std::size_t> &);
namespace vph {
using namespace albatross;
using M = MarginalDistribution;
using J = JointDistribution;
using Ix = std::vector<std::size_t>;
using V = Eigen::VectorXd;
using D = RegressionDataset<int>;
// subsetting
V sub_vec(const V &v, const Ix &i) { return subset(v, i); }
Eigen::MatrixXd sub_cols(const Eigen::MatrixXd &v, const Ix &i) { return subset_cols(v, i); }
Eigen::MatrixXd sub_rows(const Eigen::MatrixXd &v, const Ix &i) { return subset_rows(v, i); }
Eigen::MatrixXd sub_mat(const Eigen::MatrixXd &v, const Ix &i, const Ix &j) { return subset(v, i, j); }
Eigen::MatrixXd sub_sym(const Eigen::MatrixXd &v, const Ix &i) { return symmetric_subset(v, i); }
DiagonalMatrixXd sub_diag(const DiagonalMatrixXd &v, const Ix &i) { return symmetric_subset(v, i); }
void set_vec(const V &from, const Ix &i, V *to) { set_subset(from, i, to); }
void set_diag(const DiagonalMatrixXd &from, const Ix &i, DiagonalMatrixXd *to) { set_subset(from, i, to); }
std::vector<int> sub_list(const std::vector<int> &v, const Ix &i) { return subset(v, i); }
Ix complement(const Ix &i, const std::size_t &n) { return indices_complement(i, n); }
M sub_marginal(const M &m, const Ix &i) { return m.subset(i); }
J sub_joint(const J &m, const Ix &i) { return m.subset(i); }
void set_marginal(const M &from, const Ix &i, M *to) { to->set_subset(from, i); }
D sub_dataset(const D &d, const Ix &i) { return subset(d, i); }
// marginal arithmetic
M m_mean(const V &m) { return M(m); }
M m_make(const V &m, const V &v) { return M(m, v); }
M m_scalar(const double &m, const double &v) { return M(m, v); }
double m_diag(const M &m, const Eigen::Index &i) { return m.get_diagonal(i); }
M m_at(const M &m, const std::size_t &i) { return m[i]; }
bool m_eq(const M &a, const M &b) { return a == b; }
M m_add(const M &a, const M &b) { return a + b; }
M m_sub(const M &a, const M &b) { return a - b; }
M m_scale(const M &a, const double &x) { return a * x; }
std::size_t m_size(const M &m) { return m.size(); }
// joint arithmetic
J j_scalar(const double &m, const double &v) { return J(m, v); }
J j_make(const V &m, const Eigen::MatrixXd &v) { return J(m, v); }
double j_diag(const J &m, const Eigen::Index &i) { return m.get_diagonal(i); }
M j_at(const J &m, const std::size_t &i) { return m[i]; }
bool j_eq(const J &a, const J &b) { return a == b; }
J j_scale(const J &a, const double &x) { return a * x; }
J j_add(const J &a, const J &b) { return a + b; }
J j_add_m(const J &a, const M &b) { return a + b; }
J j_sub(const J &a, const J &b) { return a - b; }
J j_sub_m(const J &a, const M &b) { return a - b; }
M j_marginal(const J &a) { return a.marginal(); }
std::size_t j_size(const J &m) { return m.size(); }
// concatenation, alignment
V cat_vec(const V &a, const V &b) { return concatenate(a, b); }
M cat_m(const M &a, const M &b) { return concatenate_marginals(a, b); }
M cat_ms(const std::vector<M> &a) { return concatenate_marginals(a); }
D cat_d(const D &a, const D &b) { return concatenate_datasets(a, b); }
D cat_ds(const std::vector<D> &a) { return concatenate_datasets(a); }
D dedup(const D &d) { return deduplicate(d); }
void align(D *a, D *b) { align_datasets(a, b); }
}
namespace vpx { bool keep(const int &); }
namespace vph {
D filtered(const D &d) { return filter(d, [](const int &x) { return vpx::keep(x); }); }
}
