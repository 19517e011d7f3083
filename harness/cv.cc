// fast leave-one-out and leave-group-out
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/GP>
#include <albatross/Evaluation>
namespace vph {
using namespace albatross;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef Eigen::SerializableLDLT LDLT;
typedef MarginalDistribution Marginal;
typedef JointDistribution Joint;
typedef std::map<int, GroupIndices> Groups;
typedef GroupIndexer<int> Indexer;
typedef std::map<int, Vec> Means;
typedef std::map<int, Marginal> Marginals;
typedef std::map<int, Joint> Joints;
Vec loo_variance(const LDLT &a) { return leave_one_out_conditional_variance(a); }
Vec loo_variance_dense(const Mat &a) { return leave_one_out_conditional_variance(a); }
Marginal loo(const Joint &p, const Marginal &y) { return leave_one_out_conditional(p, y); }
Vec held_mean(const Mat &b, const Vec &y, const Vec &v) { return details::held_out_prediction(b, y, v, PredictTypeIdentity<Vec>()); }
Marginal held_marginal(const Mat &b, const Vec &y, const Vec &v) { return details::held_out_prediction(b, y, v, PredictTypeIdentity<Marginal>()); }
Joint held_joint(const Mat &b, const Vec &y, const Vec &v) { return details::held_out_prediction(b, y, v, PredictTypeIdentity<Joint>()); }
Means predictions_mean(const LDLT &a, const Vec &y, const Vec &w, const Groups &g) { return details::held_out_predictions(a, y, w, Indexer(g), PredictTypeIdentity<Vec>()); }
Marginals predictions_marginal(const LDLT &a, const Vec &y, const Vec &w, const Groups &g) { return details::held_out_predictions(a, y, w, Indexer(g), PredictTypeIdentity<Marginal>()); }
Joints predictions_joint(const LDLT &a, const Vec &y, const Vec &w, const Groups &g) { return details::held_out_predictions(a, y, w, Indexer(g), PredictTypeIdentity<Joint>()); }
Means logo_mean(const Joint &p, const Marginal &y, const Groups &g) { return leave_one_group_out_conditional_means(p, y, Indexer(g)); }
Marginals logo_marginal(const Joint &p, const Marginal &y, const Groups &g) { return leave_one_group_out_conditional_marginals(p, y, Indexer(g)); }
Joints logo_joint(const Joint &p, const Marginal &y, const Groups &g) { return leave_one_group_out_conditional_joints(p, y, Indexer(g)); }
}
