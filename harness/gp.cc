// Gaussian process fit and prediction over an arbitrary covariance and mean function, with different values for measurements
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/GP>
#include <albatross/Evaluation>
namespace vpx {
double k(int x, int y);      // features
double n(int x, int y);      // in addition between measurements
double m(int x);
double mm(int x);
}
namespace vph {
using namespace albatross;
struct X { int v; };
typedef Measurement<X> MX;
struct Signal : public CovarianceFunction<Signal> { double _call_impl(const X &x, const X &y) const { return vpx::k(x.v, y.v); } };
struct Noise : public CovarianceFunction<Noise> { double _call_impl(const X &x, const X &y) const { return vpx::n(x.v, y.v); } };
typedef SumOfCovarianceFunctions<Signal, MeasurementOnly<Noise>> K;
struct M : public MeanFunction<M> {
  double _call_impl(const X &x) const { return vpx::m(x.v); }
  double _call_impl(const MX &x) const { return vpx::mm(x.value.v); }
};
typedef std::vector<X> Xs;
typedef std::vector<MX> MXs;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef Eigen::SerializableLDLT LDLT;
typedef MarginalDistribution Marginal;
typedef JointDistribution Joint;
typedef GaussianProcessRegression<K, M> Model;
typedef Fit<GPFit<LDLT, X>> GP;
// values of the covariance and mean functions
double call_plain(const K &k, const X &x, const X &y) { return k(x, y); }
double call_measured(const K &k, const MX &x, const MX &y) { return k(x, y); }
double call_right(const K &k, const X &x, const MX &y) { return k(x, y); }
double call_left(const K &k, const MX &x, const X &y) { return k(x, y); }
double call_mean(const M &m, const X &x) { return m(x); }
double call_measured_mean(const M &m, const MX &x) { return m(x); }
// pieces
GP make_fit(const Xs &x, const Mat &cov, const Marginal &y) { return GP(x, cov, y); }
Vec mean_prediction(const Mat &cross, const Vec &information) { return gp_mean_prediction(cross, information); }
Marginal marginal_prediction(const Mat &cross, const Vec &prior, const Vec &information, const LDLT &c) { return gp_marginal_prediction(cross, prior, information, c); }
Joint joint_prediction(const Mat &cross, const Mat &prior, const Vec &information, const LDLT &c) { return gp_joint_prediction(cross, prior, information, c); }
// model
GP fit_impl(const Model &m, const Xs &x, const Marginal &y) { return m._fit_impl(x, y); }
Vec predict_mean(const Model &m, const Xs &x, const GP &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Vec>()); }
Marginal predict_marginal(const Model &m, const Xs &x, const GP &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Marginal>()); }
Joint predict_joint(const Model &m, const Xs &x, const GP &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Joint>()); }
Vec measured_mean(const Model &m, const MXs &x, const GP &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Vec>()); }
Marginal measured_marginal(const Model &m, const MXs &x, const GP &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Marginal>()); }
Joint measured_joint(const Model &m, const MXs &x, const GP &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Joint>()); }
Joint prior_joint(const Model &m, const Xs &x) { return m.prior(x); }
// public interface, fit then predict
Vec posterior_mean(const Model &m, const Xs &x, const Marginal &y, const Xs &to) { return m.fit(x, y).predict(to).mean(); }
Marginal posterior_marginal(const Model &m, const Xs &x, const Marginal &y, const Xs &to) { return m.fit(x, y).predict(to).marginal(); }
Joint posterior_joint(const Model &m, const Xs &x, const Marginal &y, const Xs &to) { return m.fit(x, y).predict(to).joint(); }
typedef RegressionDataset<X> Data;
Vec noisy_mean(const Model &m, const Data &d, const Xs &to) { const auto f = m.fit(d); return f.predict_with_measurement_noise(to).mean(); }
Marginal noisy_marginal(const Model &m, const Data &d, const Xs &to) { const auto f = m.fit(d); return f.predict_with_measurement_noise(to).marginal(); }
Joint noisy_joint(const Model &m, const Data &d, const Xs &to) { const auto f = m.fit(d); return f.predict_with_measurement_noise(to).joint(); }
// a model that reproduces a given prediction
Vec recovered_mean(const Model &m, const Xs &x, const Joint &p) { return m.fit_from_prediction(x, p).predict(x).mean(); }
Marginal recovered_marginal(const Model &m, const Xs &x, const Joint &p) { return m.fit_from_prediction(x, p).predict(x).marginal(); }
Joint recovered_joint(const Model &m, const Xs &x, const Joint &p) { return m.fit_from_prediction(x, p).predict(x).joint(); }
// conditioning within one joint distribution
typedef std::vector<std::size_t> Ix;
typedef ConditionalGaussian Cond;
Vec conditional_mean(const Cond &c, const Ix &given, const Ix &want) { return c.fit(given).predict(want).mean(); }
Marginal conditional_marginal(const Cond &c, const Ix &given, const Ix &want) { return c.fit(given).predict(want).marginal(); }
Joint conditional_joint(const Cond &c, const Ix &given, const Ix &want) { return c.fit(given).predict(want).joint(); }
// updates and block-partitioned solves
typedef BlockSymmetric<LDLT> Block;
typedef BlockSymmetric<Block> Block2;
typedef Fit<GPFit<Block, X>> GP2;
Block block_dense(const LDLT &A, const Mat &B, const Mat &C) { return build_block_symmetric(A, B, C); }
Block block_schur(const LDLT &A, const Mat &B, const LDLT &S) { return build_block_symmetric(A, B, S); }
Mat block_solve(const Block &b, const Mat &rhs) { return b.solve(rhs); }
Vec block_solve_vec(const Block &b, const Vec &rhs) { return b.solve(rhs); }
long block_rows(const Block &b) { return b.rows(); }
long block_cols(const Block &b) { return b.cols(); }
GP2 update_impl(const Model &m, const GP &fit, const Xs &x, const Marginal &y) { return m._update_impl(fit, x, y); }
GP2 update_public(const FitModel<Model, GP> &f, const Data &d) { return f.update(d).get_fit(); }
Vec updated_mean(const Model &m, const Xs &x, const GP2 &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Vec>()); }
Marginal updated_marginal(const Model &m, const Xs &x, const GP2 &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Marginal>()); }
Joint updated_joint(const Model &m, const Xs &x, const GP2 &fit) { return m._predict_impl(x, fit, PredictTypeIdentity<Joint>()); }
Block2 block2_dense(const Block &A, const Mat &B, const Mat &C) { return build_block_symmetric(A, B, C); }
Mat block2_solve(const Block2 &b, const Mat &rhs) { return b.solve(rhs); }
typedef Fit<GPFit<Block2, X>> GP3;
GP3 update_again(const Model &m, const GP2 &fit, const Xs &x, const Marginal &y) { return m._update_impl(fit, x, y); }
// cross validation
typedef std::map<int, GroupIndices> Groups;
std::map<int, Vec> cv_mean(const Model &m, const Data &d, const Groups &g) { return m.cross_validate().predict(d, GroupIndexer<int>(g)).means().get_map(); }
std::map<int, Marginal> cv_marginal(const Model &m, const Data &d, const Groups &g) { return m.cross_validate().predict(d, GroupIndexer<int>(g)).marginals().get_map(); }
std::map<int, Joint> cv_joint(const Model &m, const Data &d, const Groups &g) { return m.cross_validate().predict(d, GroupIndexer<int>(g)).joints().get_map(); }
}
