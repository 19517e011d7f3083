// LIBS: -lz
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/Dataset>
#include <albatross/Evaluation>
#include <albatross/GP>
#include "vpe.h"
using namespace albatross;
using Eigen::MatrixXd; using Eigen::VectorXd;
using MD = MarginalDistribution; using JD = JointDistribution;
using Ix = std::vector<std::size_t>;
using DS = RegressionDataset<int>;
using V = std::vector<int>;
#define IS(n, c) VP_NAMED(n, c, "")
static std::vector<double> l(const VectorXd &v) { return std::vector<double>(v.data(), v.data() + v.size()); }
static std::vector<double> dl(const MD &m) { return l(VectorXd(m.covariance.diagonal())); }
template <typename X> static std::vector<X> at(const std::vector<X> &v, const Ix &i) { std::vector<X> o; for (auto k : i) o.push_back(v[k]); return o; }
static bool is(const DS &d, const DS &src, const Ix &i) { return d.features == at(src.features, i) && l(d.targets.mean) == at(l(src.targets.mean), i) && dl(d.targets) == at(dl(src.targets), i); }
static DS gd(vp::Rng &r, int n) {
  V f; VectorXd m(n), v(n);
  for (int i = 0; i < n; ++i) { f.push_back(r.range(-5, 5)); m[i] = f.back() + 100. * r.range(1, 999); v[i] = 1 + i + 0.25 * r.range(0, 3); }
  return DS(f, MD(m, v));
}
static Ix rest(const Ix &i, std::size_t n) { Ix o; for (std::size_t k = 0; k < n; ++k) if (std::find(i.begin(), i.end(), k) == i.end()) o.push_back(k); return o; }
// a toy model whose prediction reveals exactly which rows it was trained on
namespace albatross {
class Probe;
template <> struct Fit<Probe> { double code = 0; bool operator==(const Fit<Probe> &o) const { return code == o.code; } };
static double code_of(const V &f, const MD &t) { double c = 0; for (std::size_t i = 0; i < f.size(); ++i) c = std::fmod(c * 1.7 + f[i] + t.mean[Eigen::Index(i)] * 0.5 + t.covariance.diagonal()[Eigen::Index(i)], 1009.); return c; }
class Probe : public ModelBase<Probe> {
public:
  std::string get_name() const { return "probe"; }
  Fit<Probe> _fit_impl(const V &f, const MD &t) const { Fit<Probe> x; x.code = code_of(f, t); return x; }
  static JD pred(const V &f, double c) {
    Eigen::Index n = Eigen::Index(f.size()); VectorXd m(n); MatrixXd s(n, n);
    for (Eigen::Index i = 0; i < n; ++i) { m[i] = c + f[std::size_t(i)] + 0.01 * double(i); for (Eigen::Index j = 0; j < n; ++j) s(i, j) = i == j ? 2 + c + double(i) : 0.001 * double(i + j); }
    return JD(m, s);
  }
  JD _predict_impl(const V &f, const Fit<Probe> &t, PredictTypeIdentity<JD> &&) const { return pred(f, t.code); }
};
}
using GI = GroupIndexer<int>;
static std::map<int, Ix> any_groups(vp::Rng &r, std::size_t n) {
  std::map<int, Ix> g; Ix order = vp::distinct(r, int(n), int(n)); int k = r.range(1, 5); bool sorted = r.coin();
  for (auto i : order) g[r.range(-k, k)].push_back(i);
  if (sorted) for (auto &p : g) std::sort(p.second.begin(), p.second.end());
  return g;
}
static std::string show(const std::map<int, Ix> &g) { std::string s; for (auto &p : g) s += std::to_string(p.first) + ":" + vp::str(p.second) + " "; return s; }
VP_TEST(folds) {
  int n = std::max(1, vp::size(r, 12)); DS d = gd(r, n);
  auto m = any_groups(r, std::size_t(n)); GI g(m);
  vp::describe("groups " + show(m) + " of " + std::to_string(n));
  auto f = folds_from_group_indexer(d, g);
  IS("one fold per group", f.size() == m.size());
  auto check = [&](const char *nm, const RegressionFold<int> &x, const Ix &t) {
    VP_NAMED(nm, x.test_indices == t, "test indices"); VP_NAMED(nm, is(x.test_dataset, d, t), "test rows"); VP_NAMED(nm, is(x.train_dataset, d, rest(t, std::size_t(n))), "training rows");
  };
  for (auto &p : m) { check("fold", f.at(p.first), p.second); check("create_fold", create_fold(p.second, d), p.second);
    IS("complement", indices_complement(p.second, std::size_t(n)) == rest(p.second, std::size_t(n))); }
  IS("indexer from folds", group_indexer_from_folds(f.get_map()).get_map() == m);
  IS("dataset size", dataset_size_from_indexer(g) == std::size_t(n));
  { Ix all; for (int i = 0; i < n; ++i) all.push_back(std::size_t(i)); IS("all indices", unique_indices(g) == std::set<std::size_t>(all.begin(), all.end())); }
  // partial groups (leave some out of every group)
  Ix some = vp::distinct(r, n, r.range(0, n)); check("create_fold of part", create_fold(some, d), some);
  // groupers
  int k = r.range(1, 4); auto key = [=](const int &x) { return (x + 50) % k; };
  std::map<int, Ix> km; for (int i = 0; i < n; ++i) km[key(d.features[std::size_t(i)])].push_back(std::size_t(i));
  auto kf = folds_from_grouper(d, key); IS("folds from grouper", kf.size() == km.size()); for (auto &p : km) if (kf.find(p.first) != kf.end()) check("folds from grouper", kf.at(p.first), p.second); else IS("folds from grouper", false);
  auto lf = folds_from_grouper(d, LeaveOneOutGrouper()); IS("leave one out", lf.size() == std::size_t(n)); for (int i = 0; i < n; ++i) if (lf.find(std::size_t(i)) != lf.end()) check("leave one out", lf.at(std::size_t(i)), Ix{std::size_t(i)}); else IS("leave one out", false);
  std::size_t q = std::size_t(r.range(1, 6)); auto nf = folds_from_grouper(d, KFoldGrouper(q)); Ix seen; std::size_t mn = 1000, mx = 0;
  for (const auto &p : nf) { check("k fold", p.second, p.second.test_indices); seen.insert(seen.end(), p.second.test_indices.begin(), p.second.test_indices.end()); mn = std::min(mn, p.second.test_indices.size()); mx = std::max(mx, p.second.test_indices.size()); }
  std::sort(seen.begin(), seen.end()); IS("k fold covers every index once", seen.size() == std::size_t(n)); for (std::size_t i = 0; i < seen.size(); ++i) IS("k fold covers every index once", seen[i] == i);
  IS("k fold count", nf.size() == std::min(q, std::size_t(n)) && mx - mn <= 1);
}
VP_TEST(reassembly) {
  int n = std::max(1, vp::size(r, 12)); auto m = any_groups(r, std::size_t(n)); GI g(m);
  vp::describe("reassemble groups " + show(m));
  VectorXd mean = vp::vec(r, n), var = vp::vec(r, n);
  Grouped<int, VectorXd> ms; Grouped<int, MD> mds; Grouped<int, JD> jds;
  for (auto &p : m) { VectorXd a = vp::pick(mean, p.second), b = vp::pick(var, p.second); ms.emplace(p.first, a); mds.emplace(p.first, MD(a, b)); MatrixXd S = vp::mat(r, int(a.size()), int(a.size())); for (Eigen::Index i = 0; i < a.size(); ++i) S(i, i) = b[i]; jds.emplace(p.first, JD(a, S)); }
  IS("means in order", vp::same(concatenate_mean_predictions(g, ms), mean));
  MD a = concatenate_marginal_predictions(g, mds), b = concatenate_marginal_predictions(g, jds), c = concatenate_marginal_predictions(g, mds.get_map());
  for (auto *x : {&a, &b, &c}) IS("marginals in order", vp::same(x->mean, mean) && vp::same(VectorXd(x->covariance.diagonal()), var));
}
VP_TEST(cross_validation) {
  int n = std::max(1, vp::size(r, 10)); DS d = gd(r, n); auto m = any_groups(r, std::size_t(n)); GI g(m); Probe model;
  vp::describe("cross validate groups " + show(m));
  VectorXd mean(n), var(n); std::map<int, VectorXd> ms; std::map<int, MatrixXd> ss; VectorXd rmse(m.size()); Eigen::Index gi = 0;
  for (auto &p : m) {
    Ix t = rest(p.second, std::size_t(n)); MD tt(vp::pick(d.targets.mean, t), vp::pick(VectorXd(d.targets.covariance.diagonal()), t));
    JD w = Probe::pred(at(d.features, p.second), code_of(at(d.features, t), tt));
    double e = 0; for (std::size_t i = 0; i < p.second.size(); ++i) { mean[Eigen::Index(p.second[i])] = w.mean[Eigen::Index(i)]; var[Eigen::Index(p.second[i])] = w.covariance(Eigen::Index(i), Eigen::Index(i)); double q = w.mean[Eigen::Index(i)] - d.targets.mean[Eigen::Index(p.second[i])]; e += q * q; }
    rmse[gi++] = std::sqrt(e / double(p.second.size())); ms[p.first] = w.mean; ss[p.first] = w.covariance;
  }
  auto cv = model.cross_validate(); auto pr = cv.predict(d, g);
  IS("cross validated mean", vp::same(pr.mean(), mean)); auto mg = pr.marginal(); IS("cross validated marginal", vp::same(mg.mean, mean) && vp::same(VectorXd(mg.covariance.diagonal()), var));
  auto pm = pr.means(); auto pg = pr.marginals(); auto pj = pr.joints(); IS("per group predictions", pm.size() == m.size() && pg.size() == m.size() && pj.size() == m.size());
  for (auto &p : m) { IS("per group predictions", vp::same(pm.at(p.first), ms[p.first]) && vp::same(pg.at(p.first).mean, ms[p.first]) && vp::same(pj.at(p.first).covariance, ss[p.first]) && vp::same(pj.at(p.first).mean, ms[p.first])); }
  auto folds = folds_from_group_indexer(d, g);
  auto pf = get_means(cv.predictions(folds)); for (auto &p : m) IS("predictions of folds", vp::same(pf.at(p.first), ms[p.first]));
  auto gp = get_predictions(model, folds); for (auto &p : m) IS("get_predictions", vp::same(gp.at(p.first).mean(), ms[p.first]));
  RootMeanSquareError metric; VectorXd s1 = cv.scores(metric, d, g), s2 = cross_validated_scores(metric, folds, pr.means()), s3 = cross_validated_scores(static_cast<const PredictionMetric<VectorXd> &>(metric), folds, pr.marginals());
  IS("scores per fold", vp::mclose(s1, rmse, 1e-9) && vp::mclose(s2, rmse, 1e-9) && vp::mclose(s3, rmse, 1e-9));
  auto lp = cv.predict(d, LeaveOneOutGrouper()).mean(); VectorXd lw(n);
  for (int i = 0; i < n; ++i) { Ix t = rest(Ix{std::size_t(i)}, std::size_t(n)); MD tt(vp::pick(d.targets.mean, t), vp::pick(VectorXd(d.targets.covariance.diagonal()), t)); lw[i] = code_of(at(d.features, t), tt) + d.features[std::size_t(i)]; }
  IS("leave one out predictions", vp::same(lp, lw));
}
VP_MAIN
