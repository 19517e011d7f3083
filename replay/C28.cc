// LIBS: -pthread
#define VP_THREADS
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
#include <atomic>
#include "vp.h"
using namespace albatross;
static std::shared_ptr<ThreadPool> pool(int n) {
  static std::map<int, std::shared_ptr<ThreadPool>> pools;
  if (n < 0) return nullptr;
  auto &p = pools[n];
  if (!p) p = std::make_shared<ThreadPool>(std::size_t(std::max(n, 1)));
  return p;
}
static double f(int x) { return 3. * x + 1; }
static double g(int k, double x) { return 100. * k + x; }
static void pause(int x) { if (x % 5 == 0) std::this_thread::yield(); if (x % 23 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50)); }
static std::vector<int> list(vp::Rng &r) { std::vector<int> v; int n = r.range(0, 3) ? r.range(0, 6) : r.range(0, 40); for (int i = 0; i < n; ++i) v.push_back(r.range(-20, 20)); return v; }
VP_TEST(vectors) {
  auto xs = list(r); int n = r.range(-1, 6); auto p = pool(n);
  vp::describe("apply to " + vp::str(xs) + " with " + std::to_string(n) + " threads");
  auto got = albatross::apply(xs, [](const int &x) { pause(x); return f(x); }, p.get());
  VP_NAMED("one result per element", got.size() == xs.size(), std::to_string(got.size()));
  for (std::size_t i = 0; i < xs.size(); ++i) VP_NAMED("results in order", got[i] == f(xs[i]), "position " + std::to_string(i));
  auto strings = albatross::apply(xs, [](const int &x) { pause(x); return std::string(std::size_t(x < 0 ? 0 : x), 'x'); }, p.get());
  for (std::size_t i = 0; i < xs.size(); ++i) VP_NAMED("results in order", strings[i].size() == std::size_t(std::max(xs[i], 0)), "position " + std::to_string(i));
  // each element exactly once, finished on return
  std::vector<std::atomic<int>> hits(41);
  albatross::apply(xs, [&](const int &x) { pause(x); hits[std::size_t(x + 20)]++; }, p.get());
  std::vector<int> want(41); for (int x : xs) want[std::size_t(x + 20)]++;
  for (int i = 0; i < 41; ++i) VP_NAMED("every element exactly once, finished on return", hits[std::size_t(i)] == want[std::size_t(i)], "element " + std::to_string(i - 20));
}
VP_TEST(maps) {
  std::map<int, double> xs; for (int x : list(r)) xs[x] = r.range(0, 40); int n = r.range(-1, 6); auto p = pool(n);
  vp::describe("apply to map " + vp::str(xs) + " with " + std::to_string(n) + " threads");
  Grouped<int, double> gr(xs);
  auto hv = [](const double &x) { pause(int(x)); return 2 * x + 1; };
  auto hk = [](const int &k, const double &x) { pause(int(x)); return g(k, x); };
  std::map<int, double> a = albatross::apply(xs, hv, p.get()).get_map(), b = albatross::apply(xs, hk, p.get()).get_map(), c = albatross::apply(gr, hv, p.get()).get_map(), d = albatross::apply(gr, hk, p.get()).get_map(), e = gr.apply(hv, p.get()).get_map();
  for (auto *m : {&a, &b, &c, &d, &e}) VP_NAMED("same keys", m->size() == xs.size(), "");
  for (auto &kv : xs) {
    for (auto *m : {&a, &c, &e}) VP_NAMED("result of the key", m->count(kv.first) && m->at(kv.first) == 2 * kv.second + 1, "key " + std::to_string(kv.first));
    for (auto *m : {&b, &d}) VP_NAMED("result of the key", m->count(kv.first) && m->at(kv.first) == g(kv.first, kv.second), "key " + std::to_string(kv.first));
  }
  std::vector<std::atomic<int>> hits(41), vals(41);
  albatross::apply(xs, [&](const int &k, const double &x) { pause(int(x)); hits[std::size_t(k + 20)]++; vals[std::size_t(k + 20)] = int(x); }, p.get());
  albatross::apply(gr, [&](const int &k, const double &x) { pause(int(x)); hits[std::size_t(k + 20)]++; vals[std::size_t(k + 20)] = int(x); }, p.get());
  for (int k = -20; k <= 20; ++k) VP_NAMED("every key exactly once, finished on return", hits[std::size_t(k + 20)] == (xs.count(k) ? 2 : 0) && (!xs.count(k) || vals[std::size_t(k + 20)] == int(xs[k])), "key " + std::to_string(k));
  std::atomic<int> sum{0}; int want = 0; for (auto &kv : xs) want += int(kv.second);
  albatross::apply(xs, [&](const double &x) { pause(int(x)); sum += int(x); }, p.get());
  VP_NAMED("every value exactly once, finished on return", sum == want, "");
}
VP_TEST(errors) {
  auto xs = list(r); int n = r.range(-1, 6), bad = r.range(-20, 20); auto p = pool(n);
  bool has = false; std::map<int, double> m; for (int x : xs) { has |= x == bad; m[x] = x; }
  vp::describe("apply to " + vp::str(xs) + " failing on " + std::to_string(bad) + " with " + std::to_string(n) + " threads");
  auto threw = [&](auto run) { try { run(); } catch (const std::runtime_error &e) { return std::string(e.what()) == "bad " + std::to_string(bad); } return false; };
  auto check = [bad](int x) { pause(x); if (x == bad) throw std::runtime_error("bad " + std::to_string(x)); };
  // results and captures outlive the pool's tasks
  VP_NAMED("errors propagate", threw([&] { albatross::apply(xs, [check](const int &x) { check(x); return x; }, p.get()); }) == has, "values");
  VP_NAMED("errors propagate", threw([&] { albatross::apply(xs, [check](const int &x) { check(x); }, p.get()); }) == has, "effects");
  VP_NAMED("errors propagate", threw([&] { albatross::apply(m, [check](const int &k, const double &) { check(k); return k; }, p.get()); }) == has, "map");
  VP_NAMED("errors propagate", threw([&] { albatross::apply(m, [check](const double &x) { check(int(x)); }, p.get()); }) == has, "map effects");
  // let abandoned tasks finish before check goes out of scope
  if (p) { std::vector<std::future<void>> w; for (std::size_t i = 0; i < 4 * p->thread_count(); ++i) w.push_back(p->enqueue([] {})); for (auto &x : w) x.get(); }
}
VP_TEST(errors_after_all) {
  // tasks refer to the caller's objects: none may still be running once apply is left
  auto xs = list(r); if (xs.empty()) return;
  int n = r.range(2, 6), bad = xs[std::size_t(r.range(0, int(xs.size()) - 1))]; auto p = pool(n);
  vp::describe("apply to " + vp::str(xs) + " failing on " + std::to_string(bad) + " with " + std::to_string(n) + " threads");
  struct Shared { std::atomic<bool> left{false}; std::atomic<int> late{0}; };
  auto s = std::make_shared<Shared>();
  auto task = [s, bad](int x) { pause(x); if (x == bad) throw std::runtime_error("bad"); std::this_thread::yield(); if (s->left) s->late++; };
  auto flush = [&] { s->left = true; for (int k = 0; k < 3; ++k) { std::vector<std::future<void>> w; for (std::size_t i = 0; i < 2 * p->thread_count(); ++i) w.push_back(p->enqueue([] { std::this_thread::yield(); })); for (auto &x : w) x.get(); } };
  int kind = r.range(0, 3); std::map<int, double> m; for (int x : xs) m[x] = x;
  try {
    if (kind == 0) albatross::apply(xs, [task](const int &x) { task(x); }, p.get());
    else if (kind == 1) albatross::apply(xs, [task](const int &x) { task(x); return x; }, p.get());
    else if (kind == 2) albatross::apply(m, [task](const int &k, const double &) { task(k); }, p.get());
    else albatross::apply(m, [task](const double &x) { task(int(x)); return x; }, p.get());
  } catch (const std::runtime_error &) {}
  flush();
  VP_NAMED("no task is running once apply is left", s->late == 0, std::to_string(s->late) + " tasks ran after apply had thrown, kind " + std::to_string(kind));
}
VP_TEST(pools) {
  int n = r.range(0, 8); vp::describe("pool of " + std::to_string(n));
  if (r.range(0, 20)) return;
  auto p = make_shared_thread_pool(std::size_t(n));
  VP_NAMED("one thread is serial", n != 1 || p == nullptr, "");
  VP_NAMED("requested number of threads", n == 0 ? get_thread_count(p) == get_default_thread_count() || get_default_thread_count() == 1 : get_thread_count(p) == std::size_t(n), std::to_string(get_thread_count(p)));
  VP_NAMED("at least one thread", get_default_thread_count() >= 1 && get_thread_count(nullptr) == 1, "");
}
VP_MAIN
