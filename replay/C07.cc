#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/Dataset>
#include "vpe.h"
using namespace albatross;
using Eigen::MatrixXd; using Eigen::VectorXd;
using MD = MarginalDistribution;
using Ix = std::vector<std::size_t>;
using DS = RegressionDataset<int>;
template MatrixXd albatross::subset_cols<std::size_t>(const MatrixXd &, const Ix &);
static std::vector<double> l(const VectorXd &v) { return std::vector<double>(v.data(), v.data() + v.size()); }
static std::vector<double> dl(const MD &m) { return l(VectorXd(m.covariance.diagonal())); }
static std::vector<double> at(const std::vector<double> &v, const Ix &i) { std::vector<double> o; for (auto k : i) o.push_back(v[k]); return o; }
template <typename X> static std::vector<X> plus(std::vector<X> a, const std::vector<X> &b) { for (const auto &x : b) a.push_back(x); return a; }
static Ix idx(vp::Rng &r, int n) {
  switch (r.range(0, 3)) {
  case 0: return vp::indices(r, n, r.range(0, 12));
  case 1: { Ix i = vp::distinct(r, n, r.range(0, n)); std::sort(i.begin(), i.end()); return i; }
  case 2: return vp::distinct(r, n, n);
  default: return vp::distinct(r, n, r.range(0, n));
  }
}
// every feature value i carries mean 100*unique+feature so pairing is visible
static DS gd(vp::Rng &r, int n, int span, bool uniq) {
  std::vector<int> f; VectorXd m(n), v(n);
  for (int i = 0; i < n; ++i) {
    int x = r.range(-span, span);
    if (uniq) while (std::find(f.begin(), f.end(), x) != f.end()) x = r.range(-span - n, span + n);
    f.push_back(x); m[i] = x + 1000. * r.range(1, 999); v[i] = 1 + i + 0.25 * r.range(0, 3);
  }
  return DS(f, MD(m, v));
}
static std::string show(const DS &d) { return "features " + vp::str(d.features) + " mean " + vp::str(l(d.targets.mean)) + " variance " + vp::str(dl(d.targets)); }
static void is(const char *n, const DS &d, const std::vector<int> &f, const std::vector<double> &m, const std::vector<double> &v) {
  VP_NAMED(n, d.features == f && l(d.targets.mean) == m && dl(d.targets) == v, show(d));
}
VP_TEST(vectors_and_matrices) {
  int n = vp::size(r, 9), m = vp::size(r, 9);
  VectorXd v = vp::vec(r, n); MatrixXd M = vp::mat(r, n, m), S = vp::mat(r, n, n);
  Ix i = idx(r, n), j = idx(r, m);
  std::vector<std::string> s; for (int k = 0; k < n; ++k) s.push_back("x" + vp::str(k));
  vp::describe("subset with rows " + vp::str(i) + " and columns " + vp::str(j) + " of " + vp::str(M));
  Ix all_r = vp::distinct(r, 0, 0), all_c;
  for (int k = 0; k < n; ++k) all_r.push_back(std::size_t(k));
  for (int k = 0; k < m; ++k) all_c.push_back(std::size_t(k));
  VP_NAMED("subset of vector", vp::same(subset(v, i), vp::pick(v, i)), "");
  VP_NAMED("subset of list", subset(s, i).size() == i.size(), "");
  { auto o = subset(s, i); for (std::size_t k = 0; k < i.size(); ++k) VP_NAMED("subset of list", o[k] == "x" + vp::str(i[k]), ""); }
  VP_NAMED("subset of rows and columns", vp::same(subset(M, i, j), vp::pick(M, i, j)), vp::str(subset(M, i, j)));
  VP_NAMED("subset of columns", vp::same(subset_cols(M, j), vp::pick(M, all_r, j)), "");
  VP_NAMED("subset of rows", vp::same(subset_rows(M, i), vp::pick(M, i, all_c)), "");
  VP_NAMED("symmetric subset", vp::same(symmetric_subset(S, i), vp::pick(S, i, i)), "");
  DiagonalMatrixXd D(v);
  VP_NAMED("symmetric subset of diagonal", vp::same(VectorXd(symmetric_subset(D, i).diagonal()), vp::pick(v, i)), "");
  Ix k = vp::distinct(r, n, r.range(0, n));
  VectorXd from = vp::vec(r, int(k.size())), to = v, want = v;
  for (std::size_t q = 0; q < k.size(); ++q) want[Eigen::Index(k[q])] = from[Eigen::Index(q)];
  vp::describe("set_subset at " + vp::str(k));
  set_subset(from, k, &to);
  VP_NAMED("set_subset of vector", vp::same(to, want), "");
  DiagonalMatrixXd dto(v); set_subset(DiagonalMatrixXd(from), k, &dto);
  VP_NAMED("set_subset of diagonal", vp::same(VectorXd(dto.diagonal()), want), "");
}
VP_TEST(distributions) {
  int n = vp::size(r, 9);
  VectorXd m = vp::vec(r, n), v = vp::vec(r, n); MatrixXd S = vp::mat(r, n, n);
  Ix i = idx(r, n);
  vp::describe("distribution subset " + vp::str(i) + " of mean " + vp::str(MatrixXd(m)) + " variance " + vp::str(MatrixXd(v)) + " covariance " + vp::str(S));
  MD a(m, v); JointDistribution j(m, S);
  MD b = a.subset(i), b2 = subset(a, i); JointDistribution k = j.subset(i), k2 = subset(j, i);
  VP_NAMED("marginal subset", vp::same(b.mean, vp::pick(m, i)) && vp::same(VectorXd(b.covariance.diagonal()), vp::pick(v, i)), "");
  VP_NAMED("marginal subset", b == b2, "");
  VP_NAMED("joint subset", vp::same(k.mean, vp::pick(m, i)) && vp::same(k.covariance, vp::pick(S, i, i)), "");
  VP_NAMED("joint subset", k == k2, "");
  Ix q = vp::distinct(r, n, r.range(0, n));
  MD from(vp::vec(r, int(q.size())), vp::vec(r, int(q.size())));
  VectorXd wm = m, wv = v;
  for (std::size_t x = 0; x < q.size(); ++x) { wm[Eigen::Index(q[x])] = from.mean[Eigen::Index(x)]; wv[Eigen::Index(q[x])] = from.covariance.diagonal()[Eigen::Index(x)]; }
  MD to = a; to.set_subset(from, q);
  VP_NAMED("marginal set_subset", vp::same(to.mean, wm) && vp::same(VectorXd(to.covariance.diagonal()), wv), "");
}
VP_TEST(datasets) {
  DS d = gd(r, vp::size(r, 9), 5, false);
  Ix i = idx(r, int(d.size()));
  const DS d0 = d;
  vp::describe("dataset subset " + vp::str(i) + " of " + show(d));
  std::vector<int> f; for (auto k : i) f.push_back(d.features[k]);
  is("dataset subset", subset(d, i), f, at(l(d.targets.mean), i), at(dl(d.targets), i));
  is("dataset subset", d.subset(i), f, at(l(d.targets.mean), i), at(dl(d.targets), i));
  DS e = gd(r, vp::size(r, 9), 5, false), e2 = gd(r, vp::size(r, 5), 5, false);
  vp::describe("concatenate " + show(d) + " and " + show(e) + " and " + show(e2));
  is("concatenation", concatenate_datasets(d, e), plus(d.features, e.features), plus(l(d.targets.mean), l(e.targets.mean)), plus(dl(d.targets), dl(e.targets)));
  std::vector<DS> parts; if (r.range(0, 4)) parts.push_back(d); if (r.range(0, 4)) parts.push_back(e); if (r.range(0, 4)) parts.push_back(e2);
  if (parts.size() && r.range(0, 3) == 0) parts.insert(parts.begin() + r.range(0, int(parts.size())), gd(r, 0, 1, false));
  std::vector<int> pf; std::vector<double> pm, pv;
  for (auto &p : parts) { pf = plus(pf, p.features); pm = plus(pm, l(p.targets.mean)); pv = plus(pv, dl(p.targets)); }
  is("concatenation of a list", concatenate_datasets(parts), pf, pm, pv);
  is("inputs unchanged", d, d0.features, l(d0.targets.mean), dl(d0.targets));
  RegressionDataset<std::string> t; for (int k = 0; k < r.range(0, 3); ++k) t.features.push_back("s" + vp::str(k));
  t.targets = MD(vp::vec(r, int(t.features.size())), vp::vec(r, int(t.features.size())));
  auto mixed = concatenate_datasets(d, t);
  VP_NAMED("mixed concatenation", mixed.size() == d.size() + t.size() && l(mixed.targets.mean) == plus(l(d.targets.mean), l(t.targets.mean)) && dl(mixed.targets) == plus(dl(d.targets), dl(t.targets)), "");
  if (mixed.size() == d.size() + t.size()) for (std::size_t k = 0; k < mixed.size(); ++k) {
    if (k < d.size()) VP_NAMED("mixed concatenation", mixed.features[k].is<int>() && mixed.features[k].get<int>() == d.features[k], vp::str(k));
    else VP_NAMED("mixed concatenation", mixed.features[k].is<std::string>() && mixed.features[k].get<std::string>() == t.features[k - d.size()], vp::str(k));
  }
}
VP_TEST(deduplication) {
  DS d = gd(r, vp::size(r, 9), r.range(1, 5), false);
  vp::describe("deduplicate " + show(d));
  Ix keep; std::vector<int> f;
  for (std::size_t i = 0; i < d.size(); ++i) { bool later = false; for (std::size_t j = i + 1; j < d.size(); ++j) later = later || d.features[i] == d.features[j]; if (!later) { keep.push_back(i); f.push_back(d.features[i]); } }
  is("deduplicate", deduplicate(d), f, at(l(d.targets.mean), keep), at(dl(d.targets), keep));
}
VP_TEST(alignment) {
  bool uniq = r.range(0, 3);
  int span = r.range(1, 8);
  DS a = gd(r, vp::size(r, 8), span, uniq), b = gd(r, vp::size(r, 8), span, uniq);
  const DS a0 = a, b0 = b;
  vp::describe("align " + show(a) + " with " + show(b));
  Ix ia, ib; std::vector<int> f;
  for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) if (a.features[i] == b.features[j]) { ia.push_back(i); ib.push_back(j); f.push_back(a.features[i]); }
  align_datasets(&a, &b);
  is("aligned first", a, f, at(l(a0.targets.mean), ia), at(dl(a0.targets), ia));
  is("aligned second", b, f, at(l(b0.targets.mean), ib), at(dl(b0.targets), ib));
  // custom comparison: features equal modulo sign
  a = a0; b = b0; ia.clear(); ib.clear(); std::vector<int> fa, fb;
  for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) if (a0.features[i] + 1 == b0.features[j]) { ia.push_back(i); ib.push_back(j); fa.push_back(a0.features[i]); fb.push_back(b0.features[j]); }
  align_datasets(&a, &b, [](int x, int y) { return x + 1 == y; });
  is("aligned with a comparison", a, fa, at(l(a0.targets.mean), ia), at(dl(a0.targets), ia));
  is("aligned with a comparison", b, fb, at(l(b0.targets.mean), ib), at(dl(b0.targets), ib));
}
VP_MAIN
