#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/Dataset>
namespace vpx {
int key(const int &);
bool keep(const int &);
bool keep_group(const std::vector<int> &);
bool keep_keyed(const int &, const double &);
double score(const int &);
double value(const double &);
double keyed(const int &, const double &);
int label(const int &);
}
namespace vph {
using namespace albatross;
using V = std::vector<int>;
using Ix = std::vector<std::size_t>;
using D = RegressionDataset<int>;
struct Key { int operator()(const int &x) const { return vpx::key(x); } };
struct Keep { bool operator()(const int &x) const { return vpx::keep(x); } };
struct KeepV { bool operator()(const double &x) const { return vpx::value(x) > 0; } };
struct KeepKV { bool operator()(const int &k, const double &x) const { return vpx::keep_keyed(k, x); } };
struct Score { double operator()(const int &x) const { return vpx::score(x); } };
struct Value { double operator()(const double &x) const { return vpx::value(x); } };
struct Keyed { double operator()(const int &k, const double &x) const { return vpx::keyed(k, x); } };
struct Label { int operator()(const int &x) const { return vpx::label(x); } };
struct IxKeyed { std::size_t operator()(const int &, const GroupIndices &x) const { return x.size(); } };
using GI = std::map<int, Ix>;
// the partition
GI indexer(const V &v) { return group_by(v, Key()).indexers().get_map(); }
GI indexer_ds(const D &v) { return group_by(v, Key()).indexers().get_map(); }
std::map<std::size_t, Ix> loo(const V &v) { return group_by(v, LeaveOneOutGrouper()).indexers().get_map(); }
std::map<std::size_t, Ix> kfold(const V &v, const std::size_t &k) { return group_by(v, KFoldGrouper(k)).indexers().get_map(); }
std::map<int, V> groups(const V &v) { return group_by(v, Key()).groups().get_map(); }
std::map<int, D> groups_ds(const D &v) { return group_by(v, Key()).groups().get_map(); }
std::map<int, std::size_t> counts(const V &v) { return group_by(v, Key()).counts().get_map(); }
V keys(const V &v) { return group_by(v, Key()).keys(); }
std::size_t size(const V &v) { return group_by(v, Key()).size(); }
V get_group(const V &v, const int &k) { return group_by(v, Key()).get_group(k); }
std::pair<int, V> first_group(const V &v) { return group_by(v, Key()).first_group(); }
std::map<int, std::size_t> index_apply(const V &v) { return group_by(v, Key()).index_apply(IxKeyed()).get_map(); }
// filtering and applying
V filter_v(const V &v) { return filter(v, Keep()); }
std::set<int> filter_s(const std::set<int> &v) { return filter(v, Keep()); }
D filter_d(const D &d) { return filter(d, Keep()); }
std::map<int, double> filter_m(const std::map<int, double> &m) { return filter(m, KeepV()).get_map(); }
std::map<int, double> filter_mk(const std::map<int, double> &m) { return filter(m, KeepKV()).get_map(); }
std::vector<double> apply_v(const V &v) { return apply(v, Score()); }
std::map<int, double> apply_m(const std::map<int, double> &m) { return apply(m, Value()).get_map(); }
std::map<int, double> apply_mk(const std::map<int, double> &m) { return apply(m, Keyed()).get_map(); }
std::set<int> unique_v(const V &v) { return unique_values(v); }
std::set<int> unique_f(const V &v) { return unique_values(v, Label()); }
// recombining
V combine_v(const std::map<int, V> &m) { return combine(m); }
Eigen::VectorXd combine_s(const std::map<int, double> &m) { return combine(m); }
Eigen::VectorXd combine_e(const std::map<int, Eigen::VectorXd> &m) { return combine(m); }
D combine_d(const std::map<int, D> &m) { return combine(m); }
double sum(const std::map<int, double> &m) { return Grouped<int, double>(m).sum(); }
double mean(const std::map<int, double> &m) { return Grouped<int, double>(m).mean(); }
double first_value(const std::map<int, double> &m) { return Grouped<int, double>(m).first_value(); }
double last_value(const std::map<int, double> &m) { return Grouped<int, double>(m).last_value(); }
double min_value(const std::map<int, double> &m) { return Grouped<int, double>(m).min_value(); }
int max_key(const std::map<int, double> &m) { return Grouped<int, double>(m).max_key(); }
bool all_true(const std::map<int, bool> &m) { return Grouped<int, bool>(m).all(); }
bool any_true(const std::map<int, bool> &m) { return Grouped<int, bool>(m).any(); }
Ix complement(const Ix &i, const std::size_t &n) { return indices_complement(i, n); }
Ix from_groups(const GI &m, const V &keys) { return indices_from_groups(GroupIndexer<int>(m), keys); }
}
