#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
#include <albatross/CovarianceFunctions>
#include <Eigen/SparseCore>
#include "vp.h"
#include "vpe.h"
using namespace albatross;
struct X { int v; };
struct Y { int v; };
static bool zeros = false;   // operands that are often exactly zero
static double fa(int x, int y) { return zeros && (x + y) % 2 ? 0. : 3. + x * y + 2. * (x + y); }
static double fay(int x, int y) { return 11. + 2. * x - 5. * y + 3. * x * y; }
static double fb(int x, int y) { return zeros && (x * y) % 3 == 0 ? 0. : 7. - x - y + .5 * x * y; }
static double fc(int x, int y) { return 100. + x + y; }
static double fm(int x) { return 2. * x + 1; }
static double fw(int x) { return -3. * x + 5; }
struct A : public CovarianceFunction<A> {
  double _call_impl(const X &x, const X &y) const { return fa(x.v, y.v); }
  double _call_impl(const X &x, const Y &y) const { return fay(x.v, y.v); }
};
struct B : public CovarianceFunction<B> { double _call_impl(const X &x, const X &y) const { return fb(x.v, y.v); } };
struct C : public CovarianceFunction<C> { double _call_impl(const Y &x, const Y &y) const { return fc(x.v, y.v); } };
struct M : public MeanFunction<M> { double _call_impl(const X &x) const { return fm(x.v); } };
struct N : public MeanFunction<N> { double _call_impl(const Y &x) const { return fw(x.v); } };
typedef Measurement<X> MX;
typedef Measurement<Y> MY;
typedef variant<X, Y> XY;
typedef variant<MX, MY> MXY;
#define EQ(what, got, want) do { double g_ = (got), w_ = (want); VP_NAMED(what, std::fabs(g_ - w_) <= 1e-9 * (1 + std::fabs(w_)), std::to_string(g_) + " instead of " + std::to_string(w_)); } while (0)
static X xx(vp::Rng &r) { return X{r.range(-6, 6)}; }
static Y yy(vp::Rng &r) { return Y{r.range(-6, 6)}; }
VP_TEST(sums_and_products) {
  X x = xx(r), x2 = xx(r); Y y = yy(r), y2 = yy(r); zeros = r.range(0, 1); A a; B b; C c;
  vp::describe("x " + std::to_string(x.v) + " " + std::to_string(x2.v) + " y " + std::to_string(y.v) + " " + std::to_string(y2.v));
  double av = fa(x.v, x2.v), bv = fb(x.v, x2.v), cv = fc(y.v, y2.v), ayv = fay(x.v, y.v);
  EQ("sum of both", (a + b)(x, x2), av + bv); EQ("sum of both", (b + a)(x2, x), av + bv); EQ("sum of both", (a + b + a)(x, x2), 2 * av + bv);
  EQ("only the defined operand of a sum", (a + b)(x, y), ayv); EQ("only the defined operand of a sum", (b + a)(x, y), ayv);
  EQ("symmetric", (a + b)(y, x), ayv); EQ("symmetric", (b + a)(y, x), ayv);
  EQ("only the defined operand of a sum", (b + c)(y, y2), cv); EQ("only the defined operand of a sum", (b + c)(x, x2), bv); EQ("all operands", (a + c + b)(x, x2), av + bv); EQ("all operands", (a + c + b)(y, x), ayv);
  EQ("product of both", (a * b)(x, x2), av * bv); EQ("product of both", (b * a)(x2, x), av * bv);
  EQ("only the defined operand of a product", (a * b)(x, y), ayv); EQ("only the defined operand of a product", (b * a)(x, y), ayv); EQ("symmetric", (a * b)(y, x), ayv); EQ("symmetric", (b * a)(y, x), ayv);
  EQ("nested", ((a + b) * b)(x, x2), (av + bv) * bv); EQ("nested", (a + b * a)(x, x2), av + bv * av); EQ("nested", (a + b * a)(y, x), 2 * ayv); EQ("nested", ((a + b) * (b + a))(x, y), ayv * ayv);
}
VP_TEST(measurements) {
  X x = xx(r), x2 = xx(r); Y y = yy(r); zeros = r.range(0, 1); A a; B b; MX mx(x), mx2(x2); MY my(y);
  vp::describe("x " + std::to_string(x.v) + " " + std::to_string(x2.v) + " y " + std::to_string(y.v));
  double av = fa(x.v, x2.v), bv = fb(x.v, x2.v), ayv = fay(x.v, y.v); auto mb = measurement_only(b);
  EQ("between two measurements", mb(mx, mx2), bv); EQ("not without two measurements", mb(mx, x2), 0); EQ("not without two measurements", mb(x, mx2), 0); EQ("not without two measurements", mb(x, x2), 0);
  for (int k = 0; k < 2; ++k) {
    auto f = [&](auto const &p, auto const &q) { return k ? (mb + a)(p, q) : (a + mb)(p, q); };
    EQ("measurement term added", f(mx, mx2), av + bv); EQ("no measurement term", f(mx, x2), av); EQ("no measurement term", f(x, mx2), av); EQ("no measurement term", f(x, x2), av); EQ("no measurement term", f(mx, my), ayv); EQ("no measurement term", f(my, mx), ayv); EQ("no measurement term", f(my, x), ayv); EQ("no measurement term", f(x, my), ayv);
    auto g = [&](auto const &p, auto const &q) { return k ? (mb * a)(p, q) : (a * mb)(p, q); };
    EQ("product with a measurement term", g(mx, mx2), av * bv); EQ("product with a measurement term", g(x, x2), 0); EQ("product with a measurement term", g(mx, x2), 0);
  }
  EQ("measurements evaluate like their features", a(mx, mx2), av); EQ("measurements evaluate like their features", a(my, mx), ayv); EQ("measurements evaluate like their features", M()(mx), fm(x.v));
  auto list = std::vector<X>{x, x2, x}; auto ms = as_measurements(list);
  VP_NAMED("every feature wrapped", ms.size() == 3 && ms[0].value.v == x.v && ms[1].value.v == x2.v && ms[2].value.v == x.v, "");
}
template <typename F> static LinearCombination<F> combo(vp::Rng &r, std::function<F(vp::Rng &)> gen) {
  std::vector<F> vs; int n = r.range(0, 5); for (int i = 0; i < n; ++i) vs.push_back(gen(r));
  Eigen::VectorXd w(n); for (int i = 0; i < n; ++i) w[i] = r.range(-8, 8) / 4.;
  return LinearCombination<F>(vs, w);
}
static double pair(const XY &p, const XY &q, bool sum) {   // (B + C) or (A + C + B)
  if (p.is<X>() && q.is<X>()) { int i = p.get<X>().v, j = q.get<X>().v; return fb(i, j) + (sum ? fa(i, j) : 0.); }
  if (p.is<Y>() && q.is<Y>()) return fc(p.get<Y>().v, q.get<Y>().v);
  if (!sum) return 0.;
  return p.is<X>() ? fay(p.get<X>().v, q.get<Y>().v) : fay(q.get<X>().v, p.get<Y>().v);
}
static XY xy(vp::Rng &r) { if (r.range(0, 1)) return xx(r); return yy(r); }
VP_TEST(combinations) {
  zeros = false; A a; B b; C c;
  auto lx = combo<X>(r, xx), lx2 = combo<X>(r, xx); auto ly = combo<Y>(r, yy); X x = xx(r); Y y = yy(r);
  vp::describe("combinations of " + std::to_string(lx.values.size()) + ", " + std::to_string(lx2.values.size()) + " and " + std::to_string(ly.values.size()));
  auto ab = a + b; auto k = [&](int i, int j) { return fa(i, j) + fb(i, j); };
  double r1 = 0, r2 = 0, r3 = 0, mu = 0, r4 = 0;
  for (size_t i = 0; i < lx.values.size(); ++i) {
    double w = lx.coefficients[i]; int u = lx.values[i].v;
    r1 += w * k(u, x.v); mu += w * fm(u); r4 += w * fay(u, y.v);
    for (size_t j = 0; j < lx2.values.size(); ++j) r2 += w * lx2.coefficients[j] * k(u, lx2.values[j].v);
    for (size_t j = 0; j < ly.values.size(); ++j) r3 += w * ly.coefficients[j] * fay(u, ly.values[j].v);
  }
  EQ("weighted sum", ab(lx, x), r1); EQ("symmetric", ab(x, lx), r1); EQ("double weighted sum", ab(lx, lx2), r2); EQ("symmetric", ab(lx2, lx), r2);
  EQ("double weighted sum", ab(lx, ly), r3); EQ("symmetric", ab(ly, lx), r3); EQ("weighted sum", ab(lx, y), r4); EQ("symmetric", ab(y, lx), r4);
  EQ("weighted mean", M()(lx), mu);
  EQ("measured combination", ab(Measurement<LinearCombination<X>>(lx), x), r1); EQ("measured combination", ab(lx2, Measurement<LinearCombination<X>>(lx)), r2);
  X u = xx(r), w = xx(r);
  EQ("sum of two", ab(linear_combination::sum(u, w), x), k(u.v, x.v) + k(w.v, x.v)); EQ("difference of two", ab(linear_combination::difference(u, w), x), k(u.v, x.v) - k(w.v, x.v));
  EQ("mean of three", ab(linear_combination::mean(std::vector<X>{u, w, x}), x), (k(u.v, x.v) + k(w.v, x.v) + k(x.v, x.v)) / 3);
  EQ("single", ab(linear_combination::to_linear_combination(u), x), k(u.v, x.v)); EQ("plain sum", ab(LinearCombination<X>(std::vector<X>{u, w}), x), k(u.v, x.v) + k(w.v, x.v));
  auto acb = a + c + b; XY v = xy(r);
  EQ("sum of a mixed pair", acb(linear_combination::sum(u, y), v), pair(u, v, true) + pair(y, v, true)); EQ("difference of a mixed pair", acb(linear_combination::difference(u, y), v), pair(u, v, true) - pair(y, v, true));
  // sparse matrix of combinations
  int n = r.range(1, 5), m = r.range(1, 4); std::vector<X> fs; for (int i = 0; i < n; ++i) fs.push_back(xx(r));
  Eigen::MatrixXd D = Eigen::MatrixXd::Zero(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (r.range(0, 1)) D(i, j) = r.range(-4, 4);
  Eigen::SparseMatrix<double> S = D.sparseView(); Eigen::SparseMatrix<double, Eigen::RowMajor> SR = D.sparseView();
  auto p = S * fs; auto pr = SR * fs;
  for (int i = 0; i < m; ++i) { double want = 0; for (int j = 0; j < n; ++j) want += D(i, j) * k(fs[j].v, x.v); EQ("row of a sparse map", ab(p[i], x), want); EQ("row of a sparse map", ab(pr[i], x), want); }
  std::vector<LinearCombination<X>> cs{lx, lx2}; Eigen::MatrixXd E = D.leftCols(std::min(n, 2)); cs.resize(std::size_t(E.cols())); Eigen::SparseMatrix<double> SE = E.sparseView();
  auto q = SE * cs;
  for (int i = 0; i < m; ++i) { double want = 0; for (int j = 0; j < E.cols(); ++j) want += E(i, j) * ab(cs[std::size_t(j)], x); EQ("row of a sparse map of combinations", ab(q[i], x), want); }
}
VP_TEST(variants) {
  zeros = r.range(0, 1); A a; B b; C c; XY p = xy(r), q = xy(r); X x = xx(r); Y y = yy(r);
  vp::describe(std::string("variants ") + (p.is<X>() ? "X" : "Y") + (q.is<X>() ? "X" : "Y"));
  auto bc = b + c; auto acb = a + c + b;
  EQ("pair held", bc(p, q), pair(p, q, false)); EQ("pair held", acb(p, q), pair(p, q, true)); EQ("symmetric", acb(q, p), pair(p, q, true));
  EQ("variant and feature", acb(p, x), pair(p, x, true)); EQ("variant and feature", acb(x, p), pair(p, x, true)); EQ("variant and feature", acb(p, y), pair(p, y, true)); EQ("variant and feature", bc(y, p), pair(p, y, false)); EQ("variant and feature", bc(p, x), pair(p, x, false));
  auto L = combo<XY>(r, xy), L2 = combo<XY>(r, xy); double s1 = 0, s2 = 0;
  for (size_t i = 0; i < L.values.size(); ++i) { s1 += L.coefficients[i] * pair(L.values[i], x, true); for (size_t j = 0; j < L2.values.size(); ++j) s2 += L.coefficients[i] * L2.coefficients[j] * pair(L.values[i], L2.values[j], true); }
  EQ("combination of variants", acb(L, x), s1); EQ("combination of variants", acb(x, L), s1); EQ("combination of variants", acb(L, L2), s2);
  MXY mp = p.is<X>() ? MXY(MX(p.get<X>())) : MXY(MY(p.get<Y>())), mq = q.is<X>() ? MXY(MX(q.get<X>())) : MXY(MY(q.get<Y>()));
  auto with = a + c + measurement_only(b);
  EQ("variants of measurements", with(mp, mq), pair(p, q, true));
  double plain = pair(p, q, true) - (p.is<X>() && q.is<X>() ? fb(p.get<X>().v, q.get<X>().v) : 0.);
  EQ("variants without measurements", with(p, q), plain); EQ("mixed variants", with(mp, q), plain); EQ("mixed variants", with(p, mq), plain);
  EQ("mean of a variant", M()(p), p.is<X>() ? fm(p.get<X>().v) : 0.);
  auto mm = as_measurements(std::vector<XY>{p, q}); EQ("measured variants", with(mm[0], mm[1]), pair(p, q, true));
}
VP_TEST(noise) {
  int i = r.range(-3, 3), j = r.range(-3, 3); double s = r.range(1, 20) / 4.; IndependentNoise<int> n(s);
  vp::describe("noise " + std::to_string(s) + " at " + std::to_string(i) + ", " + std::to_string(j));
  EQ("noise only on the diagonal", n(i, j), i == j ? s * s : 0.);
}
VP_MAIN
