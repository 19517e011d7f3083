// LIBS: -pthread
#define VP_THREADS
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
#include <albatross/CovarianceFunctions>
#include "vp.h"
#include "vpe.h"
using namespace albatross;
struct B { double v; };
static double kk(int x, double y) { return 1000. * x + y * y + x * y; }
static double ss(int x, int y) { return std::cos(x - y) + 1e3 * (x + y) + 7. * x * y; }
static double mm(int x) { return 3.5 * x - 2; }
static void pause(int x) { if (x % 7 == 0) std::this_thread::yield(); if (x % 31 == 0) std::this_thread::sleep_for(std::chrono::microseconds(20)); }
struct K : public CovarianceFunction<K> { double _call_impl(const int &x, const B &y) const { pause(x); return kk(x, y.v); } };
struct S : public CovarianceFunction<S> { double _call_impl(const int &x, const int &y) const { pause(x); return ss(x, y); } };
struct M : public MeanFunction<M> { double _call_impl(const int &x) const { return mm(x); } };
static std::shared_ptr<ThreadPool> pool(int n) {
  static std::map<int, std::shared_ptr<ThreadPool>> pools;
  if (n < 1) return nullptr;
  auto &p = pools[n];
  if (!p) p = std::make_shared<ThreadPool>(std::size_t(n));
  return p;
}
static int threads(vp::Rng &r) { return r.range(0, 2) ? r.range(0, 9) : r.range(0, 33); }
static std::vector<int> list(vp::Rng &r) { std::vector<int> v; int n = r.range(0, 4) ? r.range(0, 9) : r.range(0, 40); for (int i = 0; i < n; ++i) v.push_back(r.range(-30, 30)); return v; }
static std::vector<B> reals(vp::Rng &r) { std::vector<B> v; for (int x : list(r)) v.push_back(B{x / 4.}); return v; }
static std::string ij(long i, long j) { return "entry " + std::to_string(i) + "," + std::to_string(j); }
VP_TEST(cross) {
  auto xs = list(r); auto ys = reals(r); int n = threads(r); auto p = pool(n); K k;
  vp::describe("cross covariance of " + std::to_string(xs.size()) + " by " + std::to_string(ys.size()) + " features with " + std::to_string(n) + " threads");
  Eigen::MatrixXd a = k(xs, ys), b = k(xs, ys, p.get()), c = k(ys, xs), d = k(ys, xs, p.get());
  auto f = [&](const int &x, const B &y) { return kk(x, y.v); };
  Eigen::MatrixXd e = compute_covariance_matrix(f, xs, ys), g = compute_covariance_matrix(f, xs, ys, p.get());
  long m = long(xs.size()), w = long(ys.size());
  for (auto *M_ : {&a, &b, &e, &g}) {
    VP_NAMED("one row per x and one column per y", M_->rows() == m && M_->cols() == w, std::to_string(M_->rows()) + " by " + std::to_string(M_->cols()));
    for (long i = 0; i < m; ++i) for (long j = 0; j < w; ++j) VP_NAMED("entry is k(x_i, y_j)", (*M_)(i, j) == kk(xs[i], ys[j].v), ij(i, j));
  }
  for (auto *M_ : {&c, &d}) {
    VP_NAMED("one row per x and one column per y", M_->rows() == w && M_->cols() == m, std::to_string(M_->rows()) + " by " + std::to_string(M_->cols()));
    for (long i = 0; i < m; ++i) for (long j = 0; j < w; ++j) VP_NAMED("arguments may be swapped", (*M_)(j, i) == kk(xs[i], ys[j].v), ij(j, i));
  }
}
VP_TEST(square) {
  auto xs = list(r); int n = threads(r); auto p = pool(n); S s; M mf;
  vp::describe("covariance of " + std::to_string(xs.size()) + " features with " + std::to_string(n) + " threads");
  Eigen::MatrixXd a = s(xs), b = s(xs, p.get()), c = s(xs, xs), d = s(xs, xs, p.get());
  Eigen::VectorXd g = s.diagonal(xs), mu = mf(xs);
  long m = long(xs.size());
  for (auto *M_ : {&a, &b, &c, &d}) {
    VP_NAMED("one row and column per x", M_->rows() == m && M_->cols() == m, std::to_string(M_->rows()) + " by " + std::to_string(M_->cols()));
    for (long i = 0; i < m; ++i) for (long j = 0; j < m; ++j) VP_NAMED("entry is k(x_i, x_j)", std::fabs((*M_)(i, j) - ss(xs[i], xs[j])) <= 1e-9 * (1 + std::fabs(ss(xs[i], xs[j]))), ij(i, j));
  }
  VP_NAMED("diagonal and mean sizes", g.size() == m && mu.size() == m, "");
  for (long i = 0; i < m; ++i) VP_NAMED("diagonal is k(x_i, x_i)", g[i] == ss(xs[i], xs[i]), std::to_string(i));
  for (long i = 0; i < m; ++i) VP_NAMED("mean is m(x_i)", mu[i] == mm(xs[i]), std::to_string(i));
}
VP_TEST(triangles) {
  long size = r.range(0, 3) ? r.range(0, 60) : r.range(0, 100000), n = r.range(0, 3) ? r.range(1, 12) : r.range(1, 200);
  vp::describe("triangle of " + std::to_string(size) + " columns in " + std::to_string(n) + " blocks");
  auto bs = albatross::detail::partition_triangular(size, n);
  long at = 0;
  VP_NAMED("as many blocks as asked for", long(bs.size()) == n, std::to_string(bs.size()));
  for (auto &b : bs) { VP_NAMED("blocks are consecutive", b.first == at && b.second >= b.first, std::to_string(b.first)); at = b.second; }
  VP_NAMED("blocks cover every column", at == size, std::to_string(at));
}
VP_MAIN
