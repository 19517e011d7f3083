// Tiny bounded replay framework: seeded generation, concrete failing inputs, crash reporting.
#ifndef VP_REPLAY_H
#define VP_REPLAY_H
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
namespace vp {
inline char current[4096] = "startup";
struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int range(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
  bool coin() { return next() & 1; }
  double unit() { return double(next() >> 11) / 9007199254740992.0; }
  double real(double lo = -3, double hi = 3) { return lo + (hi - lo) * unit(); }
};
inline std::map<std::string, long> stat;
inline int fails = 0;
inline std::map<std::string, int> failed_names;
inline void describe(const std::string &s) {
  std::strncpy(current, s.c_str(), sizeof(current) - 1);
}
inline void on_signal(int sig) {
  char buf[4600];
  int n = snprintf(buf, sizeof buf, "\nFAIL crash :: signal %d while running %s\n", sig, current);
  for (int i = 1; i < n - 1; ++i) if (buf[i] == '\n') buf[i] = ' ';
  (void)!write(1, buf, n);
  _exit(1);
}
inline void fail(const std::string &name, const std::string &what) {
  fails++;
  if (failed_names[name]++ < 3) {
    std::string w = what;
    for (auto &c : w) if (c == '\n') c = ' ';
    printf("FAIL %s :: %s :: input %s\n", name.c_str(), w.c_str(), current);
    fflush(stdout);
  }
}
template <typename T> std::string str(const T &x) {
  std::ostringstream o; o.precision(17); o << x; return o.str();
}
template <typename T> std::string str(const std::vector<T> &v) {
  std::string s = "[";
  for (const auto &x : v) s += str(x) + ",";
  return s + "]";
}
template <typename T> std::string str(const std::set<T> &v) {
  std::string s = "{";
  for (const auto &x : v) s += str(x) + ",";
  return s + "}";
}
template <typename A, typename B> std::string str(const std::map<A, B> &v) {
  std::string s = "{";
  for (const auto &x : v) s += str(x.first) + ":" + str(x.second) + ",";
  return s + "}";
}
inline bool close(double a, double b, double tol = 1e-8) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}
struct Test { std::string name; std::function<void(Rng &, int)> f; int weight; };
inline std::vector<Test> &tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char *n, std::function<void(Rng &, int)> f, int w = 1) { tests().push_back({n, f, w}); } };
inline int run(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  double secs = argc > 2 ? atof(argv[2]) : 5;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(s, on_signal);
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  int round = 0;
  // at least 3 rounds of every test, then until the budget is used
  while (round < 3 || el() < secs) {
    for (auto &t : tests()) {
      for (int k = 0; k < t.weight; ++k) {
        Rng r{seed * 1000003 + uint64_t(round) * 7919 + k * 104729 + std::hash<std::string>()(t.name)};
        describe(t.name + " round " + std::to_string(round));
        alarm(120);
        try {
          t.f(r, round);
        } catch (const std::exception &e) {
          fail(t.name, std::string("unexpected exception ") + e.what());
        }
        alarm(0);
        stat[t.name]++;
      }
      if (round >= 3 && el() > secs) break;
    }
    round++;
    if (fails > 40) break;
    if (round > 200000) break;
  }
  for (auto &s : stat) printf("STAT %s %ld\n", s.first.c_str(), s.second);
  fflush(stdout);
  return fails ? 1 : 0;
}
} // namespace vp
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP_TEST(name) \
  static void name(vp::Rng &r, int round); \
  static vp::Reg VP_CAT(reg_, name)(#name, name); \
  static void name(vp::Rng &r, int round)
#define VP_CHECK(c, what) do { if (!(c)) vp::fail(#c, what); } while (0)
#define VP_NAMED(n, c, what) do { if (!(c)) vp::fail(n, what); } while (0)
#define VP_MAIN int main(int argc, char **argv) { return vp::run(argc, argv); }
#endif
