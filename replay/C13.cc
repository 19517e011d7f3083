#include <albatross/Common>
#include <albatross/utils/MapUtils>
#include "vp.h"
template <typename C> using MC = std::map<int, double, C>;
namespace vp {
template <typename A, typename B> std::string str(const std::pair<A, B> &v) { return str(v.first) + "/" + str(v.second); }
template <typename B> std::string str(const std::map<int, B, std::greater<int>> &v) {
  std::string s = "{";
  for (const auto &x : v) s += str(x.first) + ":" + str(x.second) + ",";
  return s + "}(descending)";
}
}
template <typename F> static bool aborts(F f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) { signal(SIGABRT, SIG_DFL); fclose(stderr); f(); _exit(0); }
  int st;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
template <typename M> static M gen(vp::Rng &r, int span, int n) {
  M m;
  for (int i = 0; i < n; ++i) m[r.range(0, span)] = double(r.range(-50, 50));
  return m;
}
template <typename C> static void merge_ops(const MC<C> &a, const MC<C> &b, int probe) {
  using M = MC<C>;
  using S = std::set<int, C>;
  const M a_before = a, b_before = b;
  using namespace albatross;
  vp::describe("map ops a=" + vp::str(a) + " b=" + vp::str(b) + " probe=" + std::to_string(probe));
  auto has = [](const M &m, int k) { return m.count(k) > 0; };
  M uni, diff, sym, inter, right, mrg, join;
  std::map<int, std::pair<double, double>, C> ip;
  std::vector<int> ks, kv, dk, ik;
  std::vector<double> vals;
  S order;
  for (int k = -1; k <= 60; ++k) order.insert(k);
  for (int k : order) {
    bool x = has(a, k), y = has(b, k);
    if (x) { ks.push_back(k); vals.push_back(a.at(k)); }
    if (x || y) {
      uni[k] = x ? a.at(k) : b.at(k);
      right[k] = y ? b.at(k) : a.at(k);
      join[k] = y ? b.at(k) : a.at(k);
      mrg[k] = x && y ? a.at(k) * 100 + b.at(k) + k * 10000 : (x ? a.at(k) : b.at(k));
    }
    if (x && !y) { diff[k] = a.at(k); dk.push_back(k); }
    if (x != y) sym[k] = x ? a.at(k) : b.at(k);
    if (x && y) { inter[k] = a.at(k) * 100 + b.at(k) + k * 10000; ip[k] = {a.at(k), b.at(k)}; ik.push_back(k); }
  }
  auto f = [](const int &k, const double &av, const double &bv) { return av * 100 + bv + k * 10000; };
  VP_NAMED("map_union", map_union(a, b) == uni, vp::str(map_union(a, b)));
  VP_NAMED("map_union right", map_union(a, b, ReturnRight()) == right, vp::str(map_union(a, b, ReturnRight())));
  VP_NAMED("map_union merge", map_union(a, b, f) == mrg, vp::str(map_union(a, b, f)));
  VP_NAMED("map_difference", map_difference(a, b) == diff, vp::str(map_difference(a, b)));
  VP_NAMED("map_symmetric_difference", map_symmetric_difference(a, b) == sym, vp::str(map_symmetric_difference(a, b)));
  VP_NAMED("map_intersect", map_intersect(a, b, f) == inter, vp::str(map_intersect(a, b, f)));
  VP_NAMED("map_intersect pair", map_intersect(a, b) == ip, "");
  VP_NAMED("map_difference_keys", map_difference_keys(a, b) == dk, vp::str(map_difference_keys(a, b)));
  VP_NAMED("map_intersect_keys", map_intersect_keys(a, b) == ik, vp::str(map_intersect_keys(a, b)));
  VP_NAMED("map_join", map_join(a, b) == join, vp::str(map_join(a, b)));
  VP_NAMED("map_keys", map_keys(a) == ks, vp::str(map_keys(a)));
  VP_NAMED("map_values", map_values(a) == vals, vp::str(map_values(a)));
  VP_NAMED("map_contains", map_contains(a, probe) == has(a, probe), "");
  VP_NAMED("map_at_or", map_at_or(a, probe, 7.25) == (has(a, probe) ? a.at(probe) : 7.25), "");
  VP_NAMED("map_at_or default", map_at_or(a, probe) == (has(a, probe) ? a.at(probe) : 0.), "");
  S bk;
  std::vector<int> bs;
  M sub, disj;
  for (auto &p : b) { bk.insert(p.first); bs.push_back(p.first); if (!has(a, p.first)) disj.insert(p); }
  for (auto &p : a) if (has(b, p.first)) sub.insert(p);
  VP_NAMED("map_subset", map_subset(a, bk) == sub, vp::str(map_subset(a, bk)));
  VP_NAMED("map_subset_sorted", map_subset_sorted(a, bs) == sub, vp::str(map_subset_sorted(a, bs)));
  VP_NAMED("inputs unchanged", a == a_before && b == b_before, "");
  VP_NAMED("map_join_strict", map_join_strict(a, disj) == map_join(a, disj), "");
}
template <typename C> static void small() {
  using M = MC<C>;
  for (int x = 0; x < 32; ++x)
    for (int y = 0; y < 32; ++y) {
      M a, b;
      for (int k = 0; k < 5; ++k) {
        if (x >> k & 1) a[k] = k + 1;
        if (y >> k & 1) b[k] = -k - 1;
      }
      merge_ops<C>(a, b, (x * 7 + y) % 7 - 1);
    }
}
VP_TEST(small_exhaustive) {
  if (round > 0) return;
  small<std::less<int>>();
  small<std::greater<int>>();
}
template <typename C> static void heterogeneous(const MC<C> &a, const MC<C> &b) {
  using namespace albatross;
  std::map<int, std::string, C> w, want;
  std::vector<std::string> vals;
  for (auto &p : b) w[p.first] = std::to_string(p.second);
  std::map<int, std::pair<double, std::string>, C> ip;
  MC<C> diff, right;
  for (auto &p : a) { if (w.count(p.first)) ip[p.first] = {p.second, w[p.first]}; else diff.insert(p); }
  VP_NAMED("map_intersect different value types", map_intersect(a, w) == ip, "");
  VP_NAMED("map_difference different value types", map_difference(a, w) == diff, "");
  for (auto &p : w) vals.push_back(p.second);
  VP_NAMED("map_values strings", map_values(w) == vals, "");
}
VP_TEST(random_maps) {
  for (int i = 0; i < 10; ++i) {
    using M1 = MC<std::less<int>>;
    using M2 = MC<std::greater<int>>;
    auto a = gen<M1>(r, r.range(1, 60), r.range(0, 30)), b = gen<M1>(r, r.range(1, 60), r.range(0, 30));
    if (r.coin()) for (auto &p : a) if (r.coin()) b[p.first] = p.second;
    merge_ops<std::less<int>>(a, b, r.range(-1, 61));
    merge_ops<std::greater<int>>(M2(a.begin(), a.end()), M2(b.begin(), b.end()), r.range(-1, 61));
    heterogeneous<std::less<int>>(a, b);
    heterogeneous<std::greater<int>>(M2(a.begin(), a.end()), M2(b.begin(), b.end()));
    if (i == 0 && round % 5 == 0) {
      bool shared = false;
      for (auto &p : a) shared = shared || b.count(p.first);
      if (!a.empty() && !shared) { b[a.begin()->first] = r.coin() ? a.begin()->second : 1e3; shared = true; }
      if (shared) VP_NAMED("map_join_strict rejects shared keys", aborts([&] { auto c = albatross::map_join_strict(a, b); }), "a=" + vp::str(a) + " b=" + vp::str(b));
    }
  }
}
VP_MAIN
