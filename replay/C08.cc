#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/Dataset>
#include <albatross/utils/AsyncUtils>
#include "vpe.h"
using namespace albatross;
using Eigen::MatrixXd; using Eigen::VectorXd;
using MD = MarginalDistribution;
using Ix = std::vector<std::size_t>;
using DS = RegressionDataset<int>;
using V = std::vector<int>;
static std::vector<double> l(const VectorXd &v) { return std::vector<double>(v.data(), v.data() + v.size()); }
static std::vector<double> dl(const MD &m) { return l(VectorXd(m.covariance.diagonal())); }
template <typename X> static std::vector<X> at(const std::vector<X> &v, const Ix &i) { std::vector<X> o; for (auto k : i) o.push_back(v[k]); return o; }
static V gv(vp::Rng &r, int n, int span) { V v; for (int i = 0; i < n; ++i) v.push_back(r.range(-span, span)); return v; }
static DS gd(vp::Rng &r, const V &f) {
  VectorXd m(f.size()), v(f.size());
  for (std::size_t i = 0; i < f.size(); ++i) { m[Eigen::Index(i)] = f[i] + 1000. * r.range(1, 999); v[Eigen::Index(i)] = 1 + double(i) + 0.25 * r.range(0, 3); }
  return DS(f, MD(m, v));
}
static bool is(const DS &d, const DS &src, const Ix &i) { return d.features == at(src.features, i) && l(d.targets.mean) == at(l(src.targets.mean), i) && dl(d.targets) == at(dl(src.targets), i); }
template <typename F> static auto partition(const V &v, F f) {
  std::map<decltype(f(0)), Ix> o;
  for (std::size_t i = 0; i < v.size(); ++i) o[f(v[i])].push_back(i);
  return o;
}
static ThreadPool *pool(int n) { static std::map<int, std::shared_ptr<ThreadPool>> p; auto &x = p[n]; if (!x) x = std::make_shared<ThreadPool>(std::size_t(n)); return x.get(); }
static ThreadPool *any_pool(vp::Rng &r) { int k = r.range(0, 3); return k ? pool(k) : nullptr; }
#define IS(n, c) VP_NAMED(n, c, "")
template <typename G, typename K, typename T> static void same_groups(const char *n, const G &g, const std::map<K, T> &w) { VP_NAMED(n, g.get_map() == w && g.size() == w.size(), "unexpected groups"); }

template <typename F> static void check_grouping(vp::Rng &r, const V &v, F f) {
  using K = decltype(f(0));
  const auto want = partition(v, f);
  std::map<K, V> wg; std::map<K, std::size_t> wc; std::vector<K> wk;
  for (auto &p : want) { wg[p.first] = at(v, p.second); wc[p.first] = p.second.size(); wk.push_back(p.first); }
  const DS d = gd(r, v);
  const auto g = group_by(v, f); const auto gdd = group_by(d, f); const auto gdm = d.group_by(f);
  for (auto *m : {"list", "dataset"}) {
    bool list = m[0] == 'l';
    IS("group indices", (list ? g.indexers() : gdd.indexers()).get_map() == want);
    IS("group counts", (list ? g.counts() : gdd.counts()).get_map() == wc);
    IS("group keys", (list ? g.keys() : gdd.keys()) == wk);
    IS("number of groups", (list ? g.size() : gdd.size()) == wk.size());
  }
  IS("group indices", gdm.indexers().get_map() == want);
  auto groups = g.groups();
  same_groups("groups of a list", groups, wg);
  auto dg = gdd.groups();
  IS("groups of a dataset", dg.size() == want.size());
  for (auto &p : want) IS("groups of a dataset", dg.find(p.first) != dg.end() && is(dg.at(p.first), d, p.second) && is(gdd.get_group(p.first), d, p.second));
  for (auto &p : want) IS("get_group", g.get_group(p.first) == wg[p.first]);
  if (want.size()) {
    auto fg = g.first_group(); IS("first group", fg.first == wk[0] && fg.second == wg[wk[0]]);
    auto fd = gdd.first_group(); IS("first group of a dataset", fd.first == wk[0] && is(fd.second, d, want.begin()->second));
    IS("first value", groups.first_value() == wg[wk[0]]); IS("last value", groups.last_value() == wg[wk.back()]);
    IS("first group", groups.first_group().first == wk[0] && groups.first_group().second == wg[wk[0]]);
  }
  IS("grouped keys and values", groups.keys() == wk);
  { auto vals = groups.values(); IS("grouped keys and values", vals.size() == wk.size()); for (std::size_t i = 0; i < wk.size() && i < vals.size(); ++i) IS("grouped keys and values", vals[i] == wg[wk[i]]); }
  // a missing key has no group
  V seen; for (int q = -12; q < 12; ++q) { K k = f(q); if (want.count(k)) continue; bool threw = false; try { g.get_group(k); } catch (const std::exception &) { threw = true; } IS("missing group", threw); }
  // combining the groups concatenates them in key order
  Ix order; for (auto &p : want) order.insert(order.end(), p.second.begin(), p.second.end());
  IS("combine lists", groups.combine() == at(v, order) && combine(groups) == at(v, order) && combine(groups.get_map()) == at(v, order));
  if (want.size()) { IS("combine datasets", is(dg.combine(), d, order) && is(combine(dg.get_map()), d, order)); }
  IS("input unchanged", is(d, d, partition(v, [](int) { return 0; })[0]));
  // with
  auto w = g.with(d.targets); 
  IS("with", w.size() == want.size());
  for (auto &p : want) IS("with", w.at(p.first).first == wg[p.first] && w.at(p.first).second == subset(d.targets, p.second) && l(w.at(p.first).second.mean) == at(l(d.targets.mean), p.second));
  std::map<K, int> tag; for (auto &k : wk) tag[k] = int(tag.size()) * 3 + 1;
  auto wt = g.with(tag); IS("with grouped", wt.size() == want.size());
  for (auto &p : want) IS("with grouped", wt.at(p.first).first == wg[p.first] && wt.at(p.first).second == tag[p.first]);
  // apply per group, serial and threaded
  auto len = [](const V &x) { double s = 0; for (auto &y : x) s = 3 * s + y; return s; };
  auto lenk = [&](const K &k, const V &x) { return len(x) + 7.5 * double(k); };
  std::map<K, double> wa, wak; for (auto &p : wg) { wa[p.first] = len(p.second); wak[p.first] = lenk(p.first, p.second); }
  ThreadPool *tp = any_pool(r);
  same_groups("apply to groups", g.apply(len), wa); same_groups("apply to groups with key", g.apply(lenk), wak);
  same_groups("apply to groups", groups.apply(len), wa); same_groups("apply to groups with key", groups.apply(lenk), wak);
  same_groups("threaded apply to groups", g.apply(len, tp), wa); same_groups("threaded apply to groups with key", g.apply(lenk, tp), wak);
  same_groups("threaded apply to groups", groups.apply(len, tp), wa); same_groups("threaded apply to groups with key", groups.apply(lenk, tp), wak);
  { std::mutex mu; std::multiset<double> seen1, seen2, want1, want2; for (auto &p : wa) want1.insert(p.second); for (auto &p : wak) want2.insert(p.second);
    g.apply([&](const V &x) { std::lock_guard<std::mutex> k(mu); seen1.insert(len(x)); }, tp); g.apply([&](const K &k, const V &x) { std::lock_guard<std::mutex> q(mu); seen2.insert(lenk(k, x)); }, tp);
    IS("void apply visits each group once", seen1 == want1 && seen2 == want2);
    seen1.clear(); seen2.clear(); g.apply([&](const V &x) { seen1.insert(len(x)); }); g.apply([&](const K &k, const V &x) { seen2.insert(lenk(k, x)); });
    IS("void apply visits each group once", seen1 == want1 && seen2 == want2); }
  auto ia = [](const K &k, const GroupIndices &x) { double s = double(k); for (auto &y : x) s = 3 * s + double(y); return s; };
  std::map<K, double> wi; for (auto &p : want) wi[p.first] = ia(p.first, p.second);
  same_groups("index_apply", g.index_apply(ia), wi); same_groups("index_apply", gdd.index_apply(ia), wi); same_groups("index_apply", g.indexers().index_apply(ia), wi);
  { std::map<K, Ix> visited; g.index_apply([&](const K &k, const GroupIndices &x) { visited[k].insert(visited[k].end(), x.begin(), x.end()); }); IS("void index_apply", visited == want); }
  // filtering groups
  auto keep = [](const V &x) { return (x.size() + std::size_t(std::abs(x[0]))) % 2 == 0; };
  auto keepk = [&](const K &k, const V &x) { return keep(x) || k == K(1); };
  std::map<K, V> wf, wfk; for (auto &p : wg) { if (keep(p.second)) wf.insert(p); if (keepk(p.first, p.second)) wfk.insert(p); }
  same_groups("filter groups", g.filter(keep), wf); same_groups("filter groups", groups.filter(keep), wf); same_groups("filter groups with key", groups.filter(keepk), wfk); same_groups("filter groups with key", g.filter(keepk), wfk);
  // combination of several groups' indices
  if (wk.size()) {
    std::vector<K> some; for (int i = r.range(0, 4); i > 0; --i) some.push_back(wk[std::size_t(r.range(0, int(wk.size()) - 1))]);
    Ix wix; for (auto &k : some) for (auto &i : want.at(k)) wix.push_back(i);
    IS("indices of named groups", indices_from_groups(g.indexers(), some) == wix);
  }
}
VP_TEST(grouping) {
  V v = gv(r, vp::size(r, 14), r.range(0, 9));
  int m = r.range(1, 6), off = r.range(-4, 4);
  vp::describe("group " + vp::str(v) + " by floor((x+" + vp::str(off) + ")/" + vp::str(m) + ")");
  auto fl = [=](int x) { int y = x + off; return y >= 0 ? y / m : -((-y + m - 1) / m); };
  check_grouping(r, v, fl);
  vp::describe("group " + vp::str(v) + " by scrambled key " + vp::str(m));
  check_grouping(r, v, [=](int x) { return ((x + 40) * 7 + off + 20) % (m + 1); });
  check_grouping(r, v, [=](int x) { return int(x < off); });
  check_grouping(r, v, [=](int x) { return double(x) / m; });
}
VP_TEST(predefined_groupers) {
  V v = gv(r, vp::size(r, 14), 5); DS d = gd(r, v);
  std::size_t k = std::size_t(r.range(1, 7));
  vp::describe("leave one out / " + vp::str(k) + "-fold of " + vp::str(v));
  std::map<std::size_t, Ix> loo, kf;
  for (std::size_t i = 0; i < v.size(); ++i) { loo[i].push_back(i); kf[i % k].push_back(i); }
  IS("leave one out", group_by(v, LeaveOneOutGrouper()).indexers().get_map() == loo && d.group_by(LeaveOneOutGrouper()).indexers().get_map() == loo);
  IS("k fold", group_by(v, KFoldGrouper(k)).indexers().get_map() == kf && d.group_by(KFoldGrouper(k)).indexers().get_map() == kf);
}
VP_TEST(filtering) {
  V v = gv(r, vp::size(r, 14), 6); DS d = gd(r, v); std::set<int> s(v.begin(), v.end()); int m = r.range(1, 4), o = r.range(0, 3);
  vp::describe("filter " + vp::str(v) + " keeping (x+12)%" + vp::str(m + 1) + "!=" + vp::str(o));
  auto keep = [=](int x) { return (x + 12) % (m + 1) != o; };
  Ix ix; V wv; std::set<int> ws; for (std::size_t i = 0; i < v.size(); ++i) if (keep(v[i])) { ix.push_back(i); wv.push_back(v[i]); ws.insert(v[i]); }
  IS("filter list", filter(v, keep) == wv); IS("filter set", filter(s, keep) == ws); IS("filter dataset", is(filter(d, keep), d, ix));
  std::map<int, double> mm; for (auto &x : v) mm[x] = vp::num(r, 4);
  auto kv = [](double x) { return x > 0.5; }; auto kkv = [=](int k, double x) { return keep(k) && x < 2; };
  std::map<int, double> wm, wmk; for (auto &p : mm) { if (kv(p.second)) wm.insert(p); if (kkv(p.first, p.second)) wmk.insert(p); }
  same_groups("filter map", filter(mm, kv), wm); same_groups("filter map with key", filter(mm, kkv), wmk); same_groups("filter grouped", filter(Grouped<int, double>(mm), kv), wm);
  IS("unique values", unique_values(v) == s);
  auto lab = [=](int x) { return x / (m + 1); }; std::set<int> wl; for (auto &x : v) wl.insert(lab(x)); IS("unique labels", unique_values(v, lab) == wl);
}
VP_TEST(applying) {
  V v = gv(r, vp::size(r, 20), 9);
  vp::describe("apply over " + vp::str(v));
  auto f = [](int x) { return x * 1.5 + 2; }; std::vector<double> w; for (auto &x : v) w.push_back(f(x));
  ThreadPool *tp = any_pool(r);
  IS("apply to list", albatross::apply(v, f) == w); IS("threaded apply to list", albatross::apply(v, f, tp) == w);
  V seen; albatross::apply(v, [&](int x) { seen.push_back(x); }); IS("void apply to list", seen == v);
  std::mutex mu; std::multiset<int> ms, want(v.begin(), v.end()); albatross::apply(v, [&](int x) { std::lock_guard<std::mutex> q(mu); ms.insert(x); }, tp); IS("void threaded apply to list", ms == want);
  std::map<int, double> m; for (auto &x : v) m[x] = vp::num(r, 4);
  auto g = [](double x) { return x * x - 1; }; auto gk = [](int k, double x) { return x * k + 1; };
  std::map<int, double> wm, wk; for (auto &p : m) { wm[p.first] = g(p.second); wk[p.first] = gk(p.first, p.second); }
  same_groups("apply to map", albatross::apply(m, g), wm); same_groups("apply to map with key", albatross::apply(m, gk), wk); same_groups("threaded apply to map", albatross::apply(m, g, tp), wm); same_groups("threaded apply to map with key", albatross::apply(m, gk, tp), wk);
}
VP_TEST(reductions) {
  std::map<int, double> m; std::map<int, bool> b; std::map<int, VectorXd> e; V vs;
  int n = vp::size(r, 9); for (int i = 0; i < n; ++i) { int k = r.range(-20, 20); m[k] = vp::num(r, 4); b[k] = r.range(0, 4) > 0; e[k] = vp::vec(r, r.range(0, 3)); }
  vp::describe("reduce " + vp::str(m) + " flags " + vp::str(b));
  Grouped<int, double> g(m); Grouped<int, bool> gb(b); Grouped<int, VectorXd> ge(e);
  double s = 0, mn = 1e300, mx = -1e300; int kmn = 0, kmx = 0; bool all = true, some = false; std::vector<double> cs, ce;
  for (auto &p : m) { s += p.second; cs.push_back(p.second); if (p.second < mn) { mn = p.second; kmn = p.first; } if (p.second >= mx) { if (p.second > mx) kmx = p.first; mx = p.second; } }
  for (auto &p : b) { all = all && p.second; some = some || p.second; }
  for (auto &p : e) for (Eigen::Index i = 0; i < p.second.size(); ++i) ce.push_back(p.second[i]);
  IS("sum", vp::close(g.sum(), s)); IS("all", gb.all() == all); IS("any", gb.any() == some);
  IS("combine scalars", l(combine(g)) == cs && l(combine(m)) == cs); IS("combine vectors", l(combine(e)) == ce && l(ge.combine()) == ce);
  if (m.size()) {
    IS("mean", vp::close(g.mean(), s / double(m.size())));
    IS("min value", g.min_value() == mn && m.at(g.min_key()) == mn && g.min().second == mn && g.min().first == g.min_key()); IS("max value", g.max_value() == mx && m.at(g.max_key()) == mx && g.max().second == mx);
    if (std::count(cs.begin(), cs.end(), mn) == 1) IS("min key", g.min_key() == kmn); if (std::count(cs.begin(), cs.end(), mx) == 1) IS("max key", g.max_key() == kmx);
    IS("first value", g.first_value() == m.begin()->second); IS("last value", g.last_value() == m.rbegin()->second);
  }
}
VP_MAIN
