#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/Dataset>
#include <albatross/Evaluation>
namespace vph {
using namespace albatross;
using V = std::vector<int>;
using Ix = std::vector<std::size_t>;
using D = RegressionDataset<int>;
using Fold = RegressionFold<int>;
using GI = GroupIndexer<int>;
using GM = std::map<int, Ix>;
template <typename T> using M = std::map<int, T>;
Ix complement(const Ix &i, const std::size_t &n) { return indices_complement(i, n); }
Fold create(const Ix &i, const D &d) { return create_fold(i, d); }
std::map<int, Fold> folds(const D &d, const GM &g) { return folds_from_group_indexer(d, GI(g)).get_map(); }
std::map<int, Ix> indexer_of(const std::map<int, Fold> &f) { return group_indexer_from_folds(f).get_map(); }
std::set<std::size_t> unique_ix(const GM &g) { return unique_indices(GI(g)); }
std::size_t dataset_size(const GM &g) { return dataset_size_from_indexer(GI(g)); }
Eigen::VectorXd means(const GM &g, const M<Eigen::VectorXd> &m) { return concatenate_mean_predictions(GI(g), Grouped<int, Eigen::VectorXd>(m)); }
MarginalDistribution marginals(const GM &g, const M<MarginalDistribution> &m) { return concatenate_marginal_predictions(GI(g), Grouped<int, MarginalDistribution>(m)); }
MarginalDistribution joints(const GM &g, const M<JointDistribution> &m) { return concatenate_marginal_predictions(GI(g), Grouped<int, JointDistribution>(m)); }
}
