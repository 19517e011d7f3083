#include <albatross/Core>
#include <albatross/utils/VariantUtils>
namespace vph {
using namespace albatross;
using N = variant<int, double>;
using W = variant<std::string, double, int>;
using S = std::string;
std::vector<W> widen(const std::vector<N> &xs) { return to_variant_vector<W>(xs); }
std::vector<W> widen_same(const std::vector<W> &xs) { return to_variant_vector<W>(xs); }
std::vector<W> wrap_double(const std::vector<double> &xs) { return to_variant_vector<W>(xs); }
std::vector<W> wrap_string(const std::vector<S> &xs) { return to_variant_vector<W>(xs); }
void set_one(const N &x, W *to) { set_variant(x, to); }
void set_plain(const int &x, W *to) { set_variant(x, to); }
void set_many(const std::vector<N> &xs, std::vector<W> *to) { set_variants(xs, to); }
std::vector<double> extract_double(const std::vector<W> &xs) { return extract_from_variants<double>(xs); }
std::vector<int> extract_int(const std::vector<W> &xs) { return extract_from_variants<int>(xs); }
std::vector<S> extract_string(const std::vector<W> &xs) { return extract_from_variants<S>(xs); }
std::vector<double> cat_same(const std::vector<double> &a, const std::vector<double> &b) { return concatenate(a, b); }
std::vector<W> cat_variants(const std::vector<W> &a, const std::vector<W> &b) { return concatenate(a, b); }
auto cat_diff(const std::vector<int> &a, const std::vector<double> &b) { return concatenate(a, b); }
auto cat_in_right(const std::vector<double> &a, const std::vector<N> &b) { return concatenate(a, b); }
auto cat_new_right(const std::vector<S> &a, const std::vector<N> &b) { return concatenate(a, b); }
auto cat_in_left(const std::vector<N> &a, const std::vector<int> &b) { return concatenate(a, b); }
auto cat_new_left(const std::vector<N> &a, const std::vector<S> &b) { return concatenate(a, b); }
std::vector<double> cat_many(const std::vector<std::vector<double>> &a) { return concatenate(a); }
}
