#include <albatross/Common>
#include <albatross/utils/MapUtils>
namespace vpx {
double merge3(int k, double a, double b);
}
namespace vph {
using M = std::map<int, double>;
using S = std::set<int>;
struct UMerge {
  double operator()(const int &k, const double &a, const double &b) const { return vpx::merge3(k, a, b); }
};
bool contains(const M &m, const int &k) { return albatross::map_contains(m, k); }
double at_or(const M &m, const int &k, const double &d) { return albatross::map_at_or(m, k, d); }
double at_or_default(const M &m, const int &k) { return albatross::map_at_or(m, k); }
std::vector<int> keys(const M &m) { return albatross::map_keys(m); }
std::vector<double> values(const M &m) { return albatross::map_values(m); }
M join(const M &a, const M &b) { return albatross::map_join(a, b); }
M join_strict(const M &a, const M &b) { return albatross::map_join_strict(a, b); }
M uni(const M &a, const M &b) { return albatross::map_union(a, b); }
M uni_merge(const M &a, const M &b) { return albatross::map_union(a, b, UMerge()); }
M uni_right(const M &a, const M &b) { return albatross::map_union(a, b, albatross::ReturnRight()); }
M diff(const M &a, const M &b) { return albatross::map_difference(a, b); }
M sym(const M &a, const M &b) { return albatross::map_symmetric_difference(a, b); }
M inter_merge(const M &a, const M &b) { return albatross::map_intersect(a, b, UMerge()); }
std::map<int, std::pair<double, double>> inter(const M &a, const M &b) { return albatross::map_intersect(a, b); }
std::vector<int> diff_keys(const M &a, const M &b) { return albatross::map_difference_keys(a, b); }
std::vector<int> inter_keys(const M &a, const M &b) { return albatross::map_intersect_keys(a, b); }
M subset(const M &a, const S &s) { return albatross::map_subset(a, s); }
M subset_sorted(const M &a, const std::vector<int> &s) { return albatross::map_subset_sorted(a, s); }
}
