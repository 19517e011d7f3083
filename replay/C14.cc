#include <albatross/Common>
#include <albatross/Graph>
#include <numeric>
#include "vp.h"
using namespace albatross;
struct UF {
  std::map<std::string, std::string> p;
  std::string find(const std::string &x) { if (!p.count(x)) p[x] = x; return p[x] == x ? x : p[x] = find(p[x]); }
  bool join(const std::string &a, const std::string &b) { auto x = find(a), y = find(b); if (x == y) return false; p[x] = y; return true; }
};
struct E { std::string a, b; double c; };
template <typename V> static std::string vs(const V &v) { return vp::str(v); }
template <typename V> static std::vector<E> plain(const Graph<V> &g) { std::vector<E> o; for (auto &e : g.edges) o.push_back({vs(e.a), vs(e.b), e.cost}); return o; }
static std::string show(const std::vector<E> &es) { std::string s; for (auto &e : es) s += e.a + "-" + e.b + ":" + vp::str(e.c) + " "; return s; }
template <typename V> static void check(const std::string &nm, const Graph<V> &g, const Graph<V> &t, bool maximise, bool spans_all) {
  auto ge = plain(g), te = plain(t);
  // only edges of the graph, each at most as often as it occurs there
  auto key = [](const E &e) { return std::min(e.a, e.b) + "|" + std::max(e.a, e.b) + "|" + vp::str(e.c == 0 ? 0. : e.c); };
  std::map<std::string, int> have;
  for (auto &e : ge) have[key(e)]++;
  for (auto &e : te) VP_NAMED(nm + " uses graph edges", have[key(e)]-- > 0, e.a + "-" + e.b + " " + show(te));
  UF f, full;
  for (auto &e : te) VP_NAMED(nm + " acyclic", f.join(e.a, e.b), show(te));
  for (auto &e : ge) full.join(e.a, e.b);
  for (auto &v : g.vertices) for (auto &w : g.vertices)
    VP_NAMED(nm + " connects what the graph connects", (f.find(vs(v)) == f.find(vs(w))) == (full.find(vs(v)) == full.find(vs(w))), vs(v) + "," + vs(w) + " in " + show(te));
  auto o = ge;
  std::sort(o.begin(), o.end(), [&](const E &x, const E &y) { return maximise ? x.c > y.c : x.c < y.c; });
  UF best;
  // all optimal forests have the same costs (as a multiset), so they can be compared exactly
  std::vector<double> want, got;
  for (auto &e : o) if (best.join(e.a, e.b)) want.push_back(e.c + 0.);
  for (auto &e : te) got.push_back(e.c + 0.);
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  VP_NAMED(nm + " total cost", want == got, "costs " + vp::str(got) + " want " + vp::str(want) + " " + show(te));
  std::set<std::string> tv, gv;
  for (auto &v : t.vertices) tv.insert(vs(v));
  for (auto &e : te) VP_NAMED(nm + " vertex set holds edge ends", tv.count(e.a) && tv.count(e.b), "");
  std::set<std::string> nonloop;
  for (auto &e : ge) if (e.a != e.b) { nonloop.insert(e.a); nonloop.insert(e.b); }
  for (auto &v : nonloop) VP_NAMED(nm + " contains every vertex", !spans_all || tv.count(v), v);
  for (auto &v : tv) VP_NAMED(nm + " only graph vertices", g.vertices.size() == 0 || std::any_of(g.vertices.begin(), g.vertices.end(), [&](const auto &x) { return vs(x) == v; }), v);
}
template <typename V> static void all(const std::vector<Edge<V>> &es) {
  auto g = create_graph(es);
  vp::describe("graph " + show(plain(g)));
  auto before = plain(g);
  check("minimum_spanning_forest", g, minimum_spanning_forest(g), false, true);
  check("maximum_spanning_forest", g, maximum_spanning_forest(g), true, true);
  UF f;
  for (auto &e : plain(g)) f.join(e.a, e.b);
  std::set<std::string> roots;
  for (auto &v : g.vertices) roots.insert(f.find(vs(v)));
  if (roots.size() <= 1) {
    check("maximum_spanning_tree", g, maximum_spanning_tree(g), true, true);
    check("minimum_spanning_tree", g, minimum_spanning_tree(g), false, true);
  }
  VP_NAMED("input unchanged", show(plain(g)) == show(before), "");
  auto adj = adjacency_map(g);
  std::size_t n = 0;
  for (auto &x : adj) { n += x.second.size(); for (auto &e : x.second) VP_NAMED("adjacency starts at its vertex", e.a == x.first, ""); }
  VP_NAMED("adjacency counts every edge twice", n == 2 * es.size(), "");
  std::set<V> verts;
  for (auto &e : es) { verts.insert(e.a); verts.insert(e.b); }
  VP_NAMED("create_graph vertices", g.vertices == verts && g.edges.size() == es.size(), "");
}
VP_TEST(exhaustive_small) {
  if (round > 0) return;
  // every subset of the 10 edges (self loops included) on 4 vertices, several cost patterns
  std::vector<std::pair<int, int>> p;
  for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) p.push_back({i, j});
  for (int m = 0; m < 1024; ++m)
    for (int c = 0; c < 4; ++c) {
      std::vector<Edge<int>> es;
      for (int k = 0; k < 10; ++k) if (m >> k & 1) {
        double cost = c == 0 ? k : c == 1 ? -((k * 7) % 10) : c == 2 ? (k * 3) % 4 - 1 : 1;
        if ((m + k) % 3 == 0) es.emplace_back(p[k].second, p[k].first, cost); else es.emplace_back(p[k].first, p[k].second, cost);
      }
      all(es);
    }
}
VP_TEST(random_graphs) {
  for (int i = 0; i < 20; ++i) {
    int n = r.range(1, 12), m = r.range(0, 30), costs = r.range(1, 20);
    bool conn = r.coin(), loops = r.range(0, 3) == 0;
    std::vector<Edge<int>> es;
    std::vector<Edge<std::string>> ss;
    const double bases[] = {0, 0, 1e8, -1e12, 1e-9}, steps[] = {1, 1e-3, 1e9, 1e-12};
    double base = bases[r.range(0, 4)], step = steps[r.range(0, 3)];
    bool ids = r.coin();
    auto add = [&](int a, int b) { double c = base + (r.coin() ? r.range(-costs, costs) * step : r.real(-5, 5) * step); if (ids) es.emplace_back(a, b, c, es.size()); else es.emplace_back(a, b, c); ss.emplace_back(std::string(a % 3 + 1, 'a' + a), std::string(b % 3 + 1, 'a' + b), c); };
    if (conn) for (int v = 1; v < n; ++v) { int u = r.range(0, v - 1); if (r.coin()) add(u, v); else add(v, u); }
    for (int k = 0; k < m; ++k) { int a = r.range(0, n - 1), b = r.range(0, n - 1); if (a != b || loops) add(a, b); }
    for (std::size_t k = es.size(); k > 1; --k) { std::size_t j = r.range(0, int(k) - 1); std::swap(es[k - 1], es[j]); std::swap(ss[k - 1], ss[j]); }
    all(es);
    all(ss);
  }
}
VP_MAIN
