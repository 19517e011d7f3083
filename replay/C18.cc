#include <albatross/GP>
#include "vp.h"
using namespace albatross;
struct Item { double v, lb, ub; bool lg, fx; int kind; };
using Ref = std::map<std::string, Item>;
static Parameter make(vp::Rng &r, Item &it) {
  it.kind = r.range(0, 8);
  it.lg = it.fx = false;
  it.lb = -HUGE_VAL; it.ub = HUGE_VAL;
  PriorContainer p;
  switch (it.kind) {
  case 0: it.v = r.real(-10, 10); p = UninformativePrior(); break;
  case 1: it.v = r.real(-10, 10); it.fx = true; p = FixedPrior(); break;
  case 2: it.v = r.real(0.1, 10); it.lb = 0; p = NonNegativePrior(); break;
  case 3: it.v = r.real(0.1, 10); it.lb = std::pow(2., -52); p = PositivePrior(); break;
  case 4: it.lb = r.real(-3, 0); it.ub = r.real(1, 3); it.v = it.lb + (it.ub - it.lb) * (r.range(0, 3) == 0 ? 1. : r.unit()); p = UniformPrior(it.lb, it.ub); break;
  case 5: it.lb = 0.01; it.ub = r.real(1, 300); it.lg = true; it.v = it.lb + (it.ub - it.lb) * (r.range(0, 3) == 0 ? 0. : r.unit()); p = LogScaleUniformPrior(it.lb, it.ub); break;
  case 6: it.v = r.real(); p = GaussianPrior(0.3, 2.); break;
  case 7: it.v = r.real(0.2, 3); p = LogNormalPrior(0.3, 2.); break;
  default: it.lb = 0; it.ub = 10 * 2.; it.v = r.real(0.1, 5); p = PositiveGaussianPrior(0., 2.);
  }
  it.v = std::min(std::max(it.v, it.lb), it.ub);
  return Parameter(it.v, p);
}
static std::string key(vp::Rng &r) { static const char *n[] = {"a", "b", "B", "aa", "length_scale", "sigma_x", "z", "_", "a b", "zz"}; return n[r.range(0, 9)]; }
static void gen(vp::Rng &r, ParameterStore *ps, Ref *ref) {
  int n = r.range(0, 8);
  for (int i = 0; i < n; ++i) { Item it; std::string k = key(r); (*ps)[k] = make(r, it); (*ref)[k] = it; }
}
static bool same(const ParameterStore &ps, const Ref &ref, double tol = 0) {
  if (ps.size() != ref.size()) return false;
  for (auto &p : ref) {
    auto f = ps.find(p.first);
    if (f == ps.end()) return false;
    auto &q = f->second;
    if (!(q.value == p.second.v || (tol > 0 && vp::close(q.value, p.second.v, tol)))) return false;
    if (q.prior.lower_bound() != p.second.lb || q.prior.upper_bound() != p.second.ub || q.is_fixed() != p.second.fx || q.prior.is_log_scale() != p.second.lg) return false;
    if (q.prior.priors_.which() != p.second.kind) return false;
  }
  return true;
}
static std::string show(const ParameterStore &p) { return pretty_params(p) + pretty_priors(p); }
VP_TEST(tunable_round_trip) {
  ParameterStore ps; Ref ref;
  gen(r, &ps, &ref);
  vp::describe("store " + show(ps));
  auto t = get_tunable_parameters(ps);
  std::vector<std::string> names; std::vector<double> vals, lbs, ubs;
  for (auto &p : ref) {
    if (p.second.fx) continue;
    auto f = [&](double x) { return p.second.lg ? std::log(x) : x; };
    names.push_back(p.first); vals.push_back(f(p.second.v)); lbs.push_back(f(p.second.lb)); ubs.push_back(f(p.second.ub));
  }
  VP_NAMED("tunable names", t.names == names, vp::str(t.names));
  VP_NAMED("tunable values", t.values == vals, vp::str(t.values));
  VP_NAMED("tunable bounds", t.lower_bounds == lbs && t.upper_bounds == ubs, "");
  VP_NAMED("round trip", same(set_tunable_params_values(ps, t.values), ref, 1e-12), show(set_tunable_params_values(ps, t.values)));
  // arbitrary vectors: clamped when forced, taken as they are otherwise
  std::vector<double> x;
  Ref forced = ref, raw = ref;
  std::size_t i = 0;
  for (auto &p : ref) {
    if (p.second.fx) continue;
    double v = r.coin() ? vals[i] : r.real(-6, 6);
    ++i;
    x.push_back(v);
    double w = p.second.lg ? std::exp(v) : v;
    raw[p.first].v = w;
    forced[p.first].v = std::min(std::max(w, p.second.lb), p.second.ub);
  }
  vp::describe("store " + show(ps) + " vector " + vp::str(x));
  VP_NAMED("set tunable clamped", same(set_tunable_params_values(ps, x), forced), show(set_tunable_params_values(ps, x)));
  VP_NAMED("set tunable unclamped", same(set_tunable_params_values(ps, x, false), raw), show(set_tunable_params_values(ps, x, false)));
  bool ok = true;
  for (auto &p : raw) ok = ok && p.second.v >= p.second.lb && p.second.v <= p.second.ub;
  VP_NAMED("params_are_valid", params_are_valid(set_tunable_params_values(ps, x, false)) == ok, "");
  VP_NAMED("input untouched", same(ps, ref), "");
}
VP_TEST(setters) {
  ParameterStore ps; Ref ref;
  gen(r, &ps, &ref);
  for (int s = 0; s < 6; ++s) {
    Item it; Parameter np = make(r, it);
    std::string k = key(r);
    vp::describe("store " + show(ps) + " set " + k + " = " + vp::str(np.value));
    bool had = ref.count(k) > 0;
    int op = r.range(0, 4);
    if (op == 0) {
      bool got = set_param_if_exists(k, np, &ps);
      VP_NAMED("set_param_if_exists reports", got == had, "");
      if (had) ref[k] = it;
    } else if (op == 1) {
      bool got = set_param_value_if_exists(k, np.value, &ps);
      VP_NAMED("set_param_value_if_exists reports", got == had, "");
      if (had) ref[k].v = it.v;
    } else if (op == 2) {
      bool got = set_param_prior_if_exists(k, np.prior, &ps);
      VP_NAMED("set_param_prior_if_exists reports", got == had, "");
      if (had) { double v = ref[k].v; ref[k] = it; ref[k].v = v; }
    } else if (op == 3 && had) {
      int w = r.range(0, 2);
      if (w == 0) { set_param(k, np, &ps); ref[k] = it; }
      if (w == 1) { set_param_value(k, np.value, &ps); ref[k].v = it.v; }
      if (w == 2) { set_param_prior(k, np.prior, &ps); double v = ref[k].v; ref[k] = it; ref[k].v = v; }
    } else {
      ParameterStore in; Ref iref;
      gen(r, &in, &iref);
      std::map<std::string, double> vals;
      for (auto &p : iref) vals[p.first] = p.second.v;
      bool all = !iref.empty();
      for (auto &p : iref) all = all && ref.count(p.first);
      vp::describe("store " + show(ps) + " set many " + show(in));
      bool vo = r.coin();
      bool got = vo ? set_param_values_if_exists(vals, &ps) : set_params_if_exists(in, &ps);
      VP_NAMED("set many reports", got == all, "");
      for (auto &p : iref) if (ref.count(p.first)) { if (vo) ref[p.first].v = p.second.v; else ref[p.first] = p.second; }
      if (all) { if (vo) set_param_values(vals, &ps); else set_params(in, &ps); }
    }
    VP_NAMED("setter changes exactly the named parameters", same(ps, ref), show(ps));
  }
}
// composite models expose the union of the parts' parameters and forward changes to the owning part
VP_TEST(composite) {
  auto build = [] {
    SquaredExponential<EuclideanDistance> se; Exponential<EuclideanDistance> ex; IndependentNoise<double> noise; Constant c(1.3);
    auto cov = se * ex + measurement_only(noise) + c;
    return gp_from_covariance_and_mean(cov, LinearMean(), "m");
  };
  auto model = build();
  SquaredExponential<EuclideanDistance> se; Exponential<EuclideanDistance> ex; IndependentNoise<double> noise; Constant c(1.3); LinearMean lm;
  ParameterStore want;
  for (auto &s : {se.get_params(), ex.get_params(), noise.get_params(), c.get_params(), lm.get_params()}) for (auto &p : s) want[p.first] = p.second;
  vp::describe("composite model");
  VP_NAMED("composite exposes the union", model.get_params() == want, show(model.get_params()));
  auto now = want;
  for (int s = 0; s < 5; ++s) {
    auto it = now.begin();
    std::advance(it, r.range(0, int(now.size()) - 1));
    double v = r.real(0.2, 4);
    std::string k = it->first;
    vp::describe("composite set " + k + " " + vp::str(v) + " on " + show(model.get_params()));
    int op = r.range(0, 5);
    if (op == 0) { model.set_param_value(k, v); now[k].value = v; }
    if (op == 1) { model.set_param_values({{k, v}}); now[k].value = v; }
    if (op == 2) { Parameter p(v, UniformPrior(0.1, 5.)); model.set_param(k, p); now[k] = p; }
    if (op == 3) { model.set_prior(k, FixedPrior()); now[k].prior = FixedPrior(); }
    if (op == 4) { std::map<std::string, double> m{{k, v}, {"nonsense", 3.}}; model.set_param_values_if_exists(m); now[k].value = v; }
    if (op == 5) { auto q = now; q[k].value = v; model.set_params(q); now = q; }
    VP_NAMED("composite forwards changes", model.get_params() == now, show(model.get_params()));
    VP_NAMED("composite get_param_value", model.get_param_value(k) == now[k].value, "");
    auto tun = model.get_tunable_parameters();
    auto t2 = get_tunable_parameters(now);
    VP_NAMED("composite tunables", tun.names == t2.names && tun.values == t2.values && tun.lower_bounds == t2.lower_bounds, vp::str(tun.names));
    std::vector<double> x;
    for (auto &y : t2.values) x.push_back(y * r.real(0.5, 1.5));
    model.set_tunable_params_values(x);
    now = set_tunable_params_values(now, x);
    VP_NAMED("composite set tunables", model.get_params() == now, show(model.get_params()));
    // the value reaches the owning part: the covariance of the model follows the parameters
    auto fresh = build();
    fresh.set_params(model.get_params());
    double p = r.real(), q = r.real();
    VP_NAMED("composite same parameters same covariance", vp::close(fresh.get_covariance()(p, q), model.get_covariance()(p, q), 1e-14), "");
    double l1 = now["squared_exponential_length_scale"].value, s1 = now["sigma_squared_exponential"].value, l2 = now["exponential_length_scale"].value, s2 = now["sigma_exponential"].value, d = std::fabs(p - q);
    double k0 = s1 * s1 * std::exp(-(d / l1) * (d / l1)) * s2 * s2 * std::exp(-d / l2) + std::pow(now["sigma_constant"].value, 2);
    VP_NAMED("composite covariance uses the parameters", vp::close(model.get_covariance()(p, q), k0, 1e-9), vp::str(model.get_covariance()(p, q)) + " want " + vp::str(k0));
  }
}
VP_MAIN
