// LIBS: -lz
#include <albatross/GP>
#include <albatross/utils/VariantUtils>
#include "vp.h"
using namespace albatross;
struct A { int v; bool operator==(const A &o) const { return v == o.v; } };
struct B { std::string s; double d; bool operator==(const B &o) const { return s == o.s && d == o.d; } };
using N = variant<A, B>;
using W = variant<double, B, std::string, A>;
static std::string show(const A &a) { return "A" + vp::str(a.v); }
static std::string show(const B &b) { return "B" + b.s + vp::str(b.d); }
static std::string show(double d) { return "d" + vp::str(d); }
static std::string show(int d) { return "i" + vp::str(d); }
static std::string show(const std::string &d) { return "s" + d; }
template <typename... T> static std::string show(const variant<T...> &x) { return x.match([](const auto &y) { return show(y); }); }
template <typename X> static std::vector<std::string> shows(const std::vector<X> &v) { std::vector<std::string> o; for (const auto &x : v) o.push_back(show(x)); return o; }
static A ga(vp::Rng &r) { return A{r.range(-99, 99)}; }
static B gb(vp::Rng &r) { return B{std::string(r.range(0, 20), char('a' + r.range(0, 9))), double(r.range(-9, 9))}; }
static N gn(vp::Rng &r) { return r.coin() ? N(ga(r)) : N(gb(r)); }
static W gw(vp::Rng &r) { switch (r.range(0, 3)) { case 0: return W(double(r.range(-9, 9))); case 1: return W(gb(r)); case 2: return W(std::string(r.range(0, 18), 'z')); default: return W(ga(r)); } }
template <typename X, typename F> static std::vector<X> many(vp::Rng &r, F f) { std::vector<X> v; int n = r.range(0, 3) ? r.range(0, 14) : r.range(0, 1); for (int i = 0; i < n; ++i) v.push_back(f(r)); return v; }
static std::vector<std::string> plus(std::vector<std::string> a, const std::vector<std::string> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
VP_TEST(widening) {
  auto n = many<N>(r, gn);
  auto a = many<A>(r, ga);
  auto w = many<W>(r, gw);
  vp::describe("variant conversion of " + vp::str(shows(n)) + " / " + vp::str(shows(a)) + " / " + vp::str(shows(w)));
  VP_NAMED("sub variant to wider variant", shows(to_variant_vector<W>(n)) == shows(n), vp::str(shows(to_variant_vector<W>(n))));
  VP_NAMED("plain to variant", shows(to_variant_vector<W>(a)) == shows(a), "");
  VP_NAMED("variant to itself", shows(to_variant_vector<W>(w)) == shows(w), "");
  std::vector<W> used = many<W>(r, gw);
  set_variants(n, &used);
  VP_NAMED("set_variants", shows(used) == shows(n), vp::str(shows(used)));
  for (auto &x : n) { W y = gw(r); set_variant(x, &y); VP_NAMED("set_variant", show(y) == show(x), show(y)); }
}
VP_TEST(extraction) {
  auto w = many<W>(r, gw);
  std::vector<std::string> wa, wb;
  std::vector<double> ta, va;
  int n = int(w.size());
  MarginalDistribution t(Eigen::VectorXd(n), Eigen::VectorXd(n).asDiagonal());
  for (int i = 0; i < n; ++i) { t.mean[i] = i + 0.5; t.covariance.diagonal()[i] = 100 + i; }
  for (int i = 0; i < n; ++i) {
    if (w[i].is<A>()) { wa.push_back(show(w[i])); ta.push_back(t.mean[i]); va.push_back(t.covariance.diagonal()[i]); }
    if (w[i].is<B>()) wb.push_back(show(w[i]));
  }
  vp::describe("extraction from " + vp::str(shows(w)));
  VP_NAMED("extract", shows(extract_from_variants<A>(w)) == wa, vp::str(shows(extract_from_variants<A>(w))));
  VP_NAMED("extract", shows(extract_from_variants<B>(w)) == wb, "");
  RegressionDataset<W> d(w, t);
  auto e = extract_from_variants<A>(d);
  VP_NAMED("extract from dataset", shows(e.features) == wa, vp::str(shows(e.features)));
  VP_NAMED("extract from dataset size", e.targets.mean.size() == Eigen::Index(ta.size()) && e.targets.covariance.diagonal().size() == Eigen::Index(ta.size()), "");
  if (e.targets.mean.size() == Eigen::Index(ta.size()))
    for (std::size_t i = 0; i < ta.size(); ++i) {
      VP_NAMED("targets stay paired", e.targets.mean[i] == ta[i], "");
      VP_NAMED("variances stay paired", e.targets.covariance.diagonal()[i] == va[i], "");
    }
}
VP_TEST(concatenation) {
  auto n = many<N>(r, gn);
  auto a = many<A>(r, ga), a2 = many<A>(r, ga);
  auto b = many<B>(r, gb);
  auto w = many<W>(r, gw), w2 = many<W>(r, gw);
  std::vector<std::string> s;
  for (int i = r.range(0, 5); i > 0; --i) s.push_back(std::string(i * 5, 'q'));
  vp::describe("concatenate " + vp::str(shows(n)) + vp::str(shows(a)) + vp::str(shows(a2)) + vp::str(shows(b)) + vp::str(shows(w)));
  auto SA = shows(a), SB = shows(b), SN = shows(n), SW = shows(w), SS = shows(s);
  VP_NAMED("same type", shows(concatenate(a, a2)) == plus(SA, shows(a2)), "");
  VP_NAMED("same variant", shows(concatenate(w, w2)) == plus(SW, shows(w2)), "");
  VP_NAMED("two types", shows(concatenate(a, b)) == plus(SA, SB), vp::str(shows(concatenate(a, b))));
  VP_NAMED("member then variant", shows(concatenate(a, n)) == plus(SA, SN), vp::str(shows(concatenate(a, n))));
  VP_NAMED("new then variant", shows(concatenate(s, n)) == plus(SS, SN), vp::str(shows(concatenate(s, n))));
  VP_NAMED("variant then member", shows(concatenate(n, b)) == plus(SN, SB), vp::str(shows(concatenate(n, b))));
  VP_NAMED("variant then new", shows(concatenate(n, s)) == plus(SN, SS), vp::str(shows(concatenate(n, s))));
  std::vector<std::vector<A>> all;
  std::vector<std::string> want;
  for (int i = r.range(0, 4); i > 0; --i) { all.push_back(many<A>(r, ga)); want = plus(want, shows(all.back())); }
  VP_NAMED("list of lists", shows(concatenate(all)) == want, "");
  Eigen::VectorXd x(r.range(0, 5)), y(r.range(0, 5));
  for (int i = 0; i < x.size(); ++i) x[i] = i + 1;
  for (int i = 0; i < y.size(); ++i) y[i] = -i - 1;
  Eigen::VectorXd z = concatenate(x, y);
  VP_NAMED("vectors", z.size() == x.size() + y.size(), "");
  for (int i = 0; i < z.size(); ++i) VP_NAMED("vector entries", z[i] == (i < x.size() ? x[i] : y[i - x.size()]), "");
  // datasets of different feature types
  auto ds = [](const auto &f, double o) {
    using F = typename std::decay_t<decltype(f)>::value_type;
    Eigen::VectorXd m(f.size()), v(f.size());
    for (int i = 0; i < m.size(); ++i) { m[i] = o + i; v[i] = o * 2 + i; }
    return RegressionDataset<F>(f, MarginalDistribution(m, v.asDiagonal()));
  };
  auto da = ds(a, 10); auto db_ = ds(b, 50); auto dn = ds(n, 90);
  auto dab = concatenate_datasets(da, db_);
  auto dan = concatenate_datasets(da, dn);
  auto chk = [&](const auto &d, const std::vector<std::string> &f, const auto &p, const auto &q) {
    VP_NAMED("dataset features", shows(d.features) == f, "");
    bool ok = d.targets.mean.size() == Eigen::Index(f.size()) && d.targets.covariance.diagonal().size() == Eigen::Index(f.size());
    VP_NAMED("dataset size", ok, "");
    for (Eigen::Index i = 0; ok && i < d.targets.mean.size(); ++i) {
      Eigen::Index k = i - p.targets.mean.size();
      VP_NAMED("dataset targets", d.targets.mean[i] == (k < 0 ? p.targets.mean[i] : q.targets.mean[k]) && d.targets.covariance.diagonal()[i] == (k < 0 ? p.targets.covariance.diagonal()[i] : q.targets.covariance.diagonal()[k]), "");
    }
  };
  chk(dab, plus(SA, SB), da, db_);
  chk(dan, plus(SA, SN), da, dn);
}
VP_MAIN
