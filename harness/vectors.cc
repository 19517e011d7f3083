#include <albatross/Core>
namespace vph {
using namespace albatross;
std::size_t to_size(Eigen::Index i) { return cast::to_size(i); }
Eigen::Index to_index(std::size_t i) { return cast::to_index(i); }
double dbl_size(std::size_t i) { return cast::to_double(i); }
double dbl_index(Eigen::Index i) { return cast::to_double(i); }
std::size_t safe_cast(double x) { return safe_cast_to_size_t(x); }
std::vector<double> lin(double a, double b, std::size_t n) { return linspace(a, b, n); }
bool all_of(const std::vector<bool> &x) { return albatross::all(x); }
bool any_of(const std::vector<bool> &x) { return albatross::any(x); }
bool contains_int(const std::vector<int> &v, const int &x) { return vector_contains(v, x); }
bool contains_str(const std::vector<std::string> &v, const std::string &x) { return vector_contains(v, x); }
}
