// LIBS: -lz
#include <albatross/GP>
#include <albatross/SparseGP>
#include <albatross/Indexing>
#include <limits>
#include "vp.h"
using namespace albatross;
VP_TEST(points) {
  double a = r.real(-10, 10), b = r.range(0, 5) == 0 ? a : r.real(-10, 10);
  std::size_t n = std::size_t(r.range(0, 3) == 0 ? r.range(0, 2) : r.range(0, 200));
  vp::describe("linspace " + vp::str(a) + "," + vp::str(b) + "," + vp::str(n));
  auto x = linspace(a, b, n);
  VP_NAMED("number of points", x.size() == n, vp::str(x.size()));
  for (std::size_t i = 0; i < x.size() && x.size() > 1; ++i)
    VP_NAMED("evenly spaced", vp::close(x[i], a + (b - a) * double(i) / double(n - 1), 1e-10), vp::str(i) + ": " + vp::str(x[i]));
  if (n >= 1 && x.size() == n) VP_NAMED("starts at the lower end", x[0] == a, vp::str(x[0]));
}
VP_TEST(booleans) {
  int n = r.range(0, 130), mode = r.range(0, 3);
  std::vector<bool> v(n);
  int c = 0;
  for (int i = 0; i < n; ++i) v[i] = mode == 0 ? true : mode == 1 ? false : r.coin();
  if (n && mode < 2 && r.coin()) { int k = r.range(0, 2) == 0 ? n - 1 : r.range(0, n - 1); v[k] = !v[k]; }
  std::string s;
  for (int i = 0; i < n; ++i) { c += v[i]; s += v[i] ? '1' : '0'; }
  vp::describe("booleans " + s);
  VP_NAMED("all", all(v) == (c == n), "");
  VP_NAMED("any", any(v) == (c > 0), "");
}
VP_TEST(containment) {
  int n = r.range(0, 12);
  std::vector<int> v;
  std::vector<std::string> w;
  for (int i = 0; i < n; ++i) { v.push_back(r.range(-3, 6)); w.push_back(std::string(r.range(0, 2), char('a' + r.range(0, 2)))); }
  vp::describe("containment " + vp::str(v) + vp::str(w));
  for (int x = -4; x < 8; ++x) {
    bool e = false;
    for (int y : v) e = e || y == x;
    VP_NAMED("vector_contains", vector_contains(v, x) == e, vp::str(x));
  }
  for (std::string x : {"", "a", "b", "aa", "bb", "c", "d"}) {
    bool e = false;
    for (auto &y : w) e = e || y == x;
    VP_NAMED("vector_contains strings", vector_contains(w, x) == e, x);
  }
}
template <typename F> static bool aborts(F f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) { signal(SIGABRT, SIG_DFL); fclose(stderr); f(); _exit(0); }
  int st;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
VP_TEST(casts) {
  for (int k = 0; k < 50; ++k) {
    std::size_t u = r.next() >> r.range(1, 63);
    std::int64_t s = std::int64_t(r.next() >> r.range(1, 63));
    vp::describe("casts " + vp::str(u) + " " + vp::str(s));
    VP_NAMED("to_index", cast::to_index(u) == Eigen::Index(u), "");
    VP_NAMED("to_size", cast::to_size(Eigen::Index(s)) == std::size_t(s), "");
    std::size_t ud = u & ((1ull << 53) - 1);
    VP_NAMED("to_double", std::size_t(cast::to_double(ud)) == ud, "");
    VP_NAMED("to_double signed", std::int64_t(cast::to_double(Eigen::Index(-std::int64_t(ud)))) == -std::int64_t(ud), "");
    double d = double(u) + (u < (1ull << 40) ? r.unit() * 0.999 : 0);
    if (d < 9e18) VP_NAMED("safe_cast_to_size_t", safe_cast_to_size_t(d) == std::size_t(std::floor(d)), vp::str(d));
  }
  if (round % 20 == 0) {
    vp::describe("rejected casts");
    VP_NAMED("negative size rejected", aborts([] { volatile auto x = cast::to_size(Eigen::Index(-1)); (void)x; }), "-1");
    VP_NAMED("negative size rejected", aborts([] { volatile auto x = cast::to_size(std::numeric_limits<Eigen::Index>::min()); (void)x; }), "min");
    VP_NAMED("large index rejected", aborts([] { volatile auto x = cast::to_index(std::size_t(1) << 63); (void)x; }), "2^63");
    VP_NAMED("unrepresentable double rejected", aborts([] { volatile auto x = cast::to_double((std::size_t(1) << 53) + 1); (void)x; }), "2^53+1");
    VP_NAMED("unrepresentable double rejected", aborts([] { volatile auto x = cast::to_double(Eigen::Index(-(std::int64_t(1) << 53) - 1)); (void)x; }), "-2^53-1");
    VP_NAMED("negative double rejected", aborts([] { volatile auto x = safe_cast_to_size_t(-2.5); (void)x; }), "-2.5");
    VP_NAMED("largest values accepted", !aborts([] {
      volatile auto x = cast::to_index(std::numeric_limits<std::size_t>::max() >> 1); (void)x;
      volatile auto y = cast::to_size(std::numeric_limits<Eigen::Index>::max()); (void)y;
      volatile auto z = cast::to_double(std::size_t(1) << 53); (void)z; volatile auto w = safe_cast_to_size_t(0.); (void)w; }), "");
  }
}
VP_TEST(stacking) {
  int nb = r.range(1, 5), cols = r.range(0, 4), rows = 0;
  std::vector<Eigen::MatrixXd> b;
  std::vector<Eigen::VectorXd> w;
  for (int i = 0; i < nb; ++i) {
    b.push_back(Eigen::MatrixXd(r.range(0, 4), cols));
    for (int j = 0; j < b[i].size(); ++j) b[i].data()[j] = r.real();
    rows += int(b[i].rows());
    w.push_back(Eigen::VectorXd(b[i].rows()));
    for (int j = 0; j < w[i].size(); ++j) w[i][j] = r.real();
  }
  vp::describe("vertical_stack of " + vp::str(nb) + " blocks, " + vp::str(rows) + " x " + vp::str(cols));
  Eigen::MatrixXd m = vertical_stack(b);
  Eigen::VectorXd v = vertical_stack(w);
  VP_NAMED("stacked shape", m.rows() == rows && m.cols() == cols && v.size() == rows, "");
  if (m.rows() != rows || m.cols() != cols || v.size() != rows) return;
  for (int i = 0, k = 0; i < nb; ++i)
    for (int j = 0; j < b[i].rows(); ++j, ++k) {
      VP_NAMED("stacked vectors", v[k] == w[i][j], "");
      for (int c = 0; c < cols; ++c) VP_NAMED("stacked rows", m(k, c) == b[i](j, c), "");
    }
}
VP_TEST(truncated_solve) {
  int n = r.range(1, 7), rank = r.range(0, n);
  Eigen::MatrixXd q(n, n);
  for (int i = 0; i < q.size(); ++i) q.data()[i] = r.real();
  Eigen::MatrixXd Q = Eigen::HouseholderQR<Eigen::MatrixXd>(q).householderQ();
  Eigen::VectorXd d = Eigen::VectorXd::Zero(n);
  double thr = r.coin() ? 1e-8 : 0.5;
  for (int i = 0; i < n; ++i) d[i] = i < rank ? 0.6 + r.unit() * 4 : (thr > 0.1 ? r.unit() * 0.4 : 0.);
  Eigen::MatrixXd A = Q * d.asDiagonal() * Q.transpose();
  A = (0.5 * (A + A.transpose())).eval();
  int m = r.range(1, 3);
  Eigen::MatrixXd rhs(n, m);
  for (int i = 0; i < rhs.size(); ++i) rhs.data()[i] = r.real();
  vp::describe("truncated_psd_solve n=" + vp::str(n) + " rank=" + vp::str(rank) + " threshold=" + vp::str(thr));
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(A);
  Eigen::MatrixXd x = truncated_psd_solve(es, rhs, thr);
  Eigen::VectorXd di = Eigen::VectorXd::Zero(n);
  for (int i = 0; i < rank; ++i) di[i] = 1 / d[i];
  Eigen::MatrixXd want = Q * di.asDiagonal() * Q.transpose() * rhs;
  VP_NAMED("truncated solve", x.rows() == n && x.cols() == m && (x - want).norm() <= 1e-7 * (1 + want.norm()), vp::str(x) + " want " + vp::str(want));
  Eigen::VectorXd v = rhs.col(0);
  Eigen::VectorXd xv = truncated_psd_solve(es, v, thr);
  VP_NAMED("truncated vector solve", (xv - want.col(0)).norm() <= 1e-7 * (1 + want.norm()), "");
  if (thr < 0.1) {
    Eigen::VectorXd xd = truncated_psd_solve(es, v);
    VP_NAMED("default threshold", (xd - want.col(0)).norm() <= 1e-7 * (1 + want.norm()), "");
  }
}
VP_MAIN
