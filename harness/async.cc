#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
namespace vpx {
double f(int x);
double g(int k, double x);
int h(int x);
}
namespace vph {
using namespace albatross;
struct F { double operator()(const int &x) const { return vpx::f(x); } };
struct G { double operator()(const int &k, const double &x) const { return vpx::g(k, x); } };
struct H { double operator()(const double &x) const { return vpx::g(3, x); } };
struct SetF { std::vector<double> &out; void operator()(const int &x) const { out[std::size_t(x)] = vpx::f(x); } };
struct SetG { std::vector<double> &out; void operator()(const int &k, const double &x) const { out[std::size_t(k)] = vpx::g(k, x); } };
std::vector<double> values(const std::vector<int> &xs, ThreadPool &pool) { return albatross::apply(xs, F(), &pool); }
std::vector<double> values_no_pool(const std::vector<int> &xs) { return albatross::apply(xs, F(), nullptr); }
void effects(const std::vector<int> &xs, std::vector<double> &out, ThreadPool &pool) {
  albatross::apply(xs, SetF{out}, &pool);
}
std::map<int, double> map_values(const std::map<int, double> &xs, ThreadPool &pool) { return albatross::apply(xs, H(), &pool).get_map(); }
std::map<int, double> map_pairs(const std::map<int, double> &xs, ThreadPool &pool) { return albatross::apply(xs, G(), &pool).get_map(); }
std::map<int, double> grouped_values(const std::map<int, double> &xs, ThreadPool &pool) { return albatross::apply(Grouped<int, double>(xs), H(), &pool).get_map(); }
std::map<int, double> grouped_pairs(const std::map<int, double> &xs, ThreadPool &pool) { return albatross::apply(Grouped<int, double>(xs), G(), &pool).get_map(); }
void map_effects(const std::map<int, double> &xs, std::vector<double> &out, ThreadPool &pool) {
  albatross::apply(xs, SetG{out}, &pool);
}
void map_value_effects(const std::map<int, int> &xs, std::vector<double> &out, ThreadPool &pool) {
  albatross::apply(xs, SetF{out}, &pool);
}
void grouped_effects(const std::map<int, double> &xs, std::vector<double> &out, ThreadPool &pool) { albatross::apply(Grouped<int, double>(xs), SetG{out}, &pool); }
std::size_t count(const std::shared_ptr<ThreadPool> &p) { return get_thread_count(p); }
std::size_t default_count() { return get_default_thread_count(); }
}
