// LIBS: -lz -pthread
#define VP_THREADS
#include <albatross/Evaluation>
#include "vpgp.h"
template Eigen::MatrixXd albatross::subset_cols<std::size_t>(const Eigen::MatrixXd &, const std::vector<std::size_t> &);
typedef std::vector<std::size_t> Ix;
static Ix others(const Ix &g, int n) { Ix o; for (std::size_t i = 0; i < std::size_t(n); ++i) if (std::find(g.begin(), g.end(), i) == g.end()) o.push_back(i); return o; }
// distribution of the noisy values at g given those everywhere else
static Post held(const MatrixXd &N, const VectorXd &m, const VectorXd &y, const Ix &g) {
  Ix o = others(g, int(N.rows()));
  if (o.empty()) return Post{m.size() ? vp::pick(m, g) : m, sub(N, g, g)};
  return condition(sub(N, o, o), sub(N, o, g), sub(N, g, g), vp::pick(y, o) - vp::pick(m, o), vp::pick(m, g));
}
static bool dist(const VectorXd &a, const Post &p) { return near(a, p.mean, 100 * big(p.mean) + big(TK)); }
static bool dist(const MarginalDistribution &a, const Post &p) { return dist(a.mean, p) && near(VectorXd(a.covariance.diagonal()), dg(p.cov), 100 * big(p.cov) + big(TK)); }
static bool dist(const JointDistribution &a, const Post &p) { return dist(a.mean, p) && near(a.covariance, p.cov, 100 * big(p.cov) + big(TK)); }
static std::string show(const VectorXd &a) { return vp::str(a); }
static std::string show(const MarginalDistribution &a) { return vp::str(a.mean) + vp::str(VectorXd(a.covariance.diagonal())); }
static std::string show(const JointDistribution &a) { return vp::str(a.mean) + vp::str(a.covariance); }
template <typename K, typename D> static void each(const std::string &what, const std::map<K, D> &got, const std::map<K, Ix> &gs, const std::map<K, Post> &want) {
  bool keys = got.size() == gs.size();
  for (const auto &g : gs) keys = keys && got.count(g.first);
  VP_NAMED(what + ": exactly the requested groups", keys, "");
  if (keys) for (const auto &g : gs) VP_NAMED(what + ": held out prediction", dist(got.at(g.first), want.at(g.first)), show(got.at(g.first)) + " expected " + vp::str(want.at(g.first).mean) + vp::str(want.at(g.first).cov));
}
static std::map<int, Ix> groups(vp::Rng &r, int n, bool partition) {
  std::map<int, Ix> g;
  int k = r.range(1, n);
  if (partition) { for (auto i : vp::distinct(r, n, n)) g[r.range(0, k - 1) * 3 - 4].push_back(i); if (r.coin()) for (auto &x : g) std::sort(x.second.begin(), x.second.end()); }
  else for (int q = 0; q < k; ++q) g[r.range(-5, 20)] = vp::distinct(r, n, r.range(1, n));
  return g;
}
static std::string show(const std::map<int, Ix> &g) { std::string o; for (const auto &x : g) { o += " " + std::to_string(x.first) + ":"; for (auto i : x.second) o += std::to_string(i) + ","; } return o; }
VP_TEST(conditional) {
  int n = r.range(1, 9);
  TK = gen(r, n);
  JointDistribution prior(vp::vec(r, n), TK); MarginalDistribution truth(vp::vec(r, n), variances(r, n));
  auto gs = groups(r, n, r.coin());
  vp::describe("prior " + vp::str(prior.mean) + vp::str(TK) + " truth " + vp::str(truth.mean) + vp::str(VectorXd(truth.covariance.diagonal())) + " groups" + show(gs));
  MatrixXd N = TK; for (int i = 0; i < n; ++i) N(i, i) += truth.covariance.diagonal()[i];
  const MarginalDistribution loo = leave_one_out_conditional(prior, truth);
  const VectorXd v1 = leave_one_out_conditional_variance(N), v2 = leave_one_out_conditional_variance(Eigen::SerializableLDLT(N));
  bool sized = loo.mean.size() == n && v1.size() == n && v2.size() == n;
  VP_NAMED("leave one out: size", sized, "");
  for (int i = 0; sized && i < n; ++i) {
    Post p = held(N, prior.mean, truth.mean, Ix{std::size_t(i)});
    double s = 100 * big(p.cov) + big(TK);
    VP_NAMED("leave one out: mean", near(VectorXd::Constant(1, loo.mean[i]), p.mean, 100 * big(p.mean) + big(TK)), std::to_string(i) + ": " + vp::str(loo.mean));
    VP_NAMED("leave one out: variance", near(VectorXd::Constant(1, loo.covariance.diagonal()[i]), dg(p.cov), s) && near(VectorXd::Constant(1, v1[i]), dg(p.cov), s) && near(VectorXd::Constant(1, v2[i]), dg(p.cov), s), vp::str(v1));
  }
  std::map<int, Post> want; for (const auto &g : gs) want[g.first] = held(N, prior.mean, truth.mean, g.second);
  auto pool = make_shared_thread_pool(std::size_t(r.range(1, 4)));
  const GroupIndexer<int> ix(gs);
  each("means", leave_one_group_out_conditional_means(prior, truth, ix), gs, want);
  each("marginals", leave_one_group_out_conditional_marginals(prior, truth, ix), gs, want);
  each("joints", leave_one_group_out_conditional_joints(prior, truth, ix), gs, want);
  if (pool) {
    each("threaded means", leave_one_group_out_conditional_means(prior, truth, ix, pool.get()), gs, want);
    each("threaded marginals", leave_one_group_out_conditional_marginals(prior, truth, ix, pool.get()), gs, want);
    each("threaded joints", leave_one_group_out_conditional_joints(prior, truth, ix, pool.get()), gs, want);
  }
}
VP_TEST(model) {
  int n = r.range(2, 10);
  TK = gen(r, n); TN = r.coin() ? gen(r, n) : MatrixXd::Zero(n, n); TM = vp::vec(r, n); TMM = r.coin() ? TM : VectorXd(vp::vec(r, n));
  Ix tr = vp::distinct(r, n, r.range(2, n));
  int k = int(tr.size());
  VectorXd y = vp::vec(r, k, 5), R = variances(r, k), m = vp::pick(TMM, tr);
  std::vector<X> xs; for (auto i : tr) xs.push_back(X{int(i)});
  auto gs = groups(r, k, true);
  vp::describe("prior covariance " + vp::str(TK) + " measurement covariance " + vp::str(TN) + " means " + vp::str(TM) + vp::str(TMM) + " features " + vp::str(vp::pick(VectorXd::LinSpaced(n, 0, n - 1), tr)) + " values " + vp::str(y) + " variances " + vp::str(R) + " groups" + show(gs));
  MatrixXd N = sub(TK, tr, tr) + sub(TN, tr, tr); for (int i = 0; i < k; ++i) N(i, i) += R[i];
  std::map<int, Post> want; for (const auto &g : gs) want[g.first] = held(N, m, y, g.second);
  const K kernel; Model model(kernel, M());
  if (r.coin()) model.set_thread_pool(make_shared_thread_pool(std::size_t(r.range(1, 4))));
  const RegressionDataset<X> data(xs, MarginalDistribution(y, R));
  const auto cv = model.cross_validate().predict(data, GroupIndexer<int>(gs));
  each("model means", cv.means().get_map(), gs, want);
  each("model marginals", cv.marginals().get_map(), gs, want);
  each("model joints", cv.joints().get_map(), gs, want);
  VectorXd wm(k), wv(k);
  for (const auto &g : gs) for (std::size_t i = 0; i < g.second.size(); ++i) { wm[Eigen::Index(g.second[i])] = want.at(g.first).mean[Eigen::Index(i)]; wv[Eigen::Index(g.second[i])] = want.at(g.first).cov(Eigen::Index(i), Eigen::Index(i)); }
  const VectorXd mean = cv.mean(); const MarginalDistribution marg = cv.marginal();
  VP_NAMED("mean in the order of the data", near(mean, wm, 100 * big(wm) + big(TK)), vp::str(mean));
  VP_NAMED("marginal in the order of the data", near(marg.mean, wm, 100 * big(wm) + big(TK)) && near(VectorXd(marg.covariance.diagonal()), wv, 100 * big(wv) + big(TK)), vp::str(marg.mean));
  // every observation a group of its own
  const auto single = model.cross_validate().predict(data, LeaveOneOutGrouper()).marginal();
  VectorXd sm(k), sv(k); for (int i = 0; i < k; ++i) { Post p = held(N, m, y, Ix{std::size_t(i)}); sm[i] = p.mean[0]; sv[i] = p.cov(0, 0); }
  VP_NAMED("leave one out grouper", near(single.mean, sm, 100 * big(sm) + big(TK)) && near(VectorXd(single.covariance.diagonal()), sv, 100 * big(sv) + big(TK)), vp::str(single.mean));
  // really holding the data out
  const auto &g = *gs.begin();
  Ix o = others(g.second, k);
  if (!o.empty() && TN.isZero()) {
    const auto pred = model.fit(subset(data, o)).predict(subset(data.features, g.second));
    JointDistribution j = pred.joint();
    VectorXd shift = vp::pick(TMM, tr) - vp::pick(TM, tr);
    for (std::size_t i = 0; i < g.second.size(); ++i) { j.covariance(Eigen::Index(i), Eigen::Index(i)) += R[Eigen::Index(g.second[i])]; j.mean[Eigen::Index(i)] += shift[Eigen::Index(g.second[i])]; }
    VP_NAMED("the same as refitting", dist(j, want.at(g.first)), show(j));
  }
}
VP_MAIN
