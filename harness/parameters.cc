#include <albatross/Core>
namespace vph {
using namespace albatross;
using PS = ParameterStore;
using K = ParameterKey;
TunableParameters get_tunable(const PS &p) { return albatross::get_tunable_parameters(p); }
double within(const Parameter &p, double v) { return albatross::ensure_value_within_bounds(p, v); }
PS set_tunable(const PS &p, const std::vector<double> &x) { return albatross::set_tunable_params_values(p, x); }
PS set_tunable_force(const PS &p, const std::vector<double> &x, bool b) { return albatross::set_tunable_params_values(p, x, b); }
bool valid(const PS &p) { return albatross::params_are_valid(p); }
bool is_valid(const Parameter &p) { return p.is_valid(); }
void set_param(const K &k, const Parameter &x, PS *p) { albatross::set_param(k, x, p); }
void set_value(const K &k, const double &x, PS *p) { albatross::set_param_value(k, x, p); }
void set_prior(const K &k, const ParameterPrior &x, PS *p) { albatross::set_param_prior(k, x, p); }
void set_params(const PS &x, PS *p) { albatross::set_params(x, p); }
void set_values(const std::map<K, double> &x, PS *p) { albatross::set_param_values(x, p); }
bool set_param_ie(const K &k, const Parameter &x, PS *p) { return albatross::set_param_if_exists(k, x, p); }
bool set_value_ie(const K &k, const double &x, PS *p) { return albatross::set_param_value_if_exists(k, x, p); }
bool set_prior_ie(const K &k, const ParameterPrior &x, PS *p) { return albatross::set_param_prior_if_exists(k, x, p); }
bool set_params_ie(const PS &x, PS *p) { return albatross::set_params_if_exists(x, p); }
bool set_values_ie(const std::map<K, double> &x, PS *p) { return albatross::set_param_values_if_exists(x, p); }
double prior_ll(const PS &p) { return albatross::parameter_prior_log_likelihood(p); }
}
// a model with its own parameters, addressed through the mixin interface
namespace vph {
struct Model : public ParameterHandlingMixin {};
void model_vtables() { Model m; }
void m_set_value(Model *m, const K &k, const double &x) { m->set_param_value(k, x); }
void m_set_param(Model *m, const K &k, const Parameter &x) { m->ParameterHandlingMixin::set_param(k, x); }
void m_set_prior(Model *m, const K &k, const ParameterPrior &x) { m->set_prior(k, x); }
void m_set_params(Model *m, const PS &x) { m->set_params(x); }
void m_set_values(Model *m, const std::map<K, double> &x) { m->set_param_values(x); }
void m_set_params_ie(Model *m, const PS &x) { m->set_params_if_exists(x); }
bool m_set_param_ie(Model *m, const K &k, const Parameter &x) { return albatross::set_param_if_exists(k, x, m); }
bool m_set_value_ie(Model *m, const K &k, const double &x) { return albatross::set_param_value_if_exists(k, x, m); }
bool m_in_any(Model *m, Model *m2, const K &k, const Parameter &x) { return set_param_if_exists_in_any(k, x, m, m2); }
double m_value(const Model &m, const K &k) { return m.get_param_value(k); }
PS m_params(const Model &m) { return m.get_params(); }
void m_set_tunable(Model *m, const std::vector<double> &x) { m->set_tunable_params_values(x); }
}
