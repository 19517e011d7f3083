#include <albatross/Common>
namespace vph {
using namespace albatross;
std::string comp(const std::string &s, const int &level) { return zstd::compress(s, level); }
std::string comp_default(const std::string &s) { return zstd::compress(s); }
bool maybe(const std::string &in, std::string *out) { return zstd::maybe_decompress(in, out); }
std::string decomp(const std::string &in) { return zstd::decompress(in); }
std::string round(const std::string &s, const int &level) { return zstd::decompress(zstd::compress(s, level)); }
std::string comp_v(const std::vector<double> &v, const int &level) { return zstd::compress(v.data(), v.size(), level); }
bool maybe_v(const std::string &in, std::vector<double> *out) { return zstd::maybe_decompress(in, out->data(), out->size()); }
void decomp_v(const std::string &in, std::vector<double> *out) { zstd::decompress(in, out->data(), out->size()); }
void round_v(const std::vector<double> &v, const int &level, std::vector<double> *out) { zstd::decompress(zstd::compress(v.data(), v.size(), level), out->data(), out->size()); }
}
