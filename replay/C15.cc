// LIBS: -lzstd
#include <albatross/Common>
#include <sys/resource.h>
#include "vp.h"
using namespace albatross;
static std::string hex(const std::string &s) { std::string o; char b[4]; for (std::size_t i = 0; i < s.size() && i < 64; ++i) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } return std::to_string(s.size()) + ":" + o; }
static std::string bytes(vp::Rng &r) {
  static const int sizes[] = {0, 1, 2, 3, 7, 8, 9, 63, 64, 255, 256, 257, 1000, 65535, 65536, 65537, 131072, 131073, 400000, 3000000, 5000001};
  std::size_t n = r.range(0, 2) ? std::size_t(r.range(0, 300)) : std::size_t(sizes[r.range(0, 14 + (r.range(0, 9) ? 0 : r.range(0, 9) ? 4 : 6))]);
  std::string s; int kind = r.range(0, 3);
  for (std::size_t i = 0; i < n; ++i) s.push_back(kind == 0 ? char(r.next()) : kind == 1 ? 'a' : kind == 2 ? char(i % 7) : "abracadabra\0\xff"[r.range(0, 12)]);
  return s;
}
static int level(vp::Rng &r) { return r.range(0, 6) ? r.range(-7, 9) : r.range(0, 1) ? r.range(-150000, 150000) : r.range(10, 19); }
// what zstd itself says about an input (independent of the wrapper): content if it is a valid input which declares its true size
static bool ref(const std::string &in, std::string *out) {
  unsigned long long d = ZSTD_getFrameContentSize(in.data(), in.size());
  if (d == ZSTD_CONTENTSIZE_UNKNOWN || d == ZSTD_CONTENTSIZE_ERROR || d > 100000000ull) return false;
  std::string o(std::size_t(d) + 1, 'x');
  std::size_t got = ZSTD_decompress(&o[0], std::size_t(d), in.data(), in.size());
  if (ZSTD_isError(got) || got != d) return false;
  o.resize(std::size_t(d)); *out = o; return true;
}
static void untrusted(const std::string &in) {
  static bool lim = false;
  if (!lim) { struct rlimit l = {6000000000ul, 6000000000ul}; setrlimit(RLIMIT_AS, &l); lim = true; }
  vp::describe("decompress input " + hex(in));
  std::string want, got = "previous"; bool ok = ref(in, &want), r = false; const std::string copy = in;
  try { r = zstd::maybe_decompress(in, &got); } catch (const std::exception &e) { vp::fail("failure contained", std::string("maybe_decompress threw ") + e.what()); return; }
  VP_NAMED("failure reported", r == ok, std::string("reported ") + (r ? "success" : "failure"));
  if (r && ok) VP_NAMED("content of a valid frame", got == want, hex(got));
  VP_NAMED("input unchanged", in == copy, "");
  for (std::size_t n : {want.size(), want.size() + 1, std::size_t(0), std::size_t(17)}) {
    std::vector<unsigned char> b(n + 16, 0xEE); bool q = false;
    try { q = zstd::maybe_decompress(in, b.data(), n); } catch (const std::exception &e) { vp::fail("failure contained", std::string("maybe_decompress into a buffer threw ") + e.what()); return; }
    VP_NAMED("failure reported", q == (ok && n == want.size()), "buffer of " + std::to_string(n));
    if (q) VP_NAMED("content of a valid frame", std::string(b.begin(), b.begin() + long(n)) == want, "");
    for (std::size_t i = n; i < b.size(); ++i) VP_NAMED("nothing written past the buffer", b[i] == 0xEE, std::to_string(i));
  }
}
VP_TEST(round_trip) {
  std::string s = bytes(r); const std::string copy = s; int l = level(r);
  vp::describe("round trip at level " + std::to_string(l) + " of " + hex(s));
  std::string z = r.range(0, 3) ? zstd::compress(s, l) : zstd::compress(s);
  VP_NAMED("input unchanged", s == copy, "");
  VP_NAMED("compressed form is a frame", ZSTD_findFrameCompressedSize(z.data(), z.size()) == z.size() && ZSTD_getFrameContentSize(z.data(), z.size()) == s.size(), hex(z));
  std::string o = "previous contents"; bool ok = zstd::maybe_decompress(z, &o);
  VP_NAMED("round trip", ok && o == s, hex(o)); VP_NAMED("round trip", zstd::decompress(z) == s, "");
  std::vector<unsigned char> b(s.size(), 1); zstd::decompress(z, b.data(), b.size()); VP_NAMED("round trip to bytes", std::string(b.begin(), b.end()) == s, "");
  std::vector<unsigned char> src(s.begin(), s.end()); VP_NAMED("byte container", zstd::decompress(zstd::compress(src.data(), src.size(), l)) == s, "");
}
VP_TEST(elements) {
  std::size_t n = std::size_t(vp::Rng(r).range(0, 40)); std::vector<double> v; std::vector<uint16_t> w; struct P { int a; double b; }; std::vector<P> p;
  for (std::size_t i = 0; i < n; ++i) { v.push_back(r.real(-1e9, 1e9)); w.push_back(uint16_t(r.next())); P q; std::memset(&q, 0, sizeof q); q.a = int(r.next()); q.b = r.real(); p.push_back(q); }
  int l = level(r); vp::describe("round trip of " + std::to_string(n) + " elements at level " + std::to_string(l));
  auto zv = zstd::compress(v.data(), n, l), zw = zstd::compress(w.data(), n, l), zp = zstd::compress(p.data(), n, l);
  std::vector<double> v2(n); std::vector<uint16_t> w2(n); std::vector<P> p2(n);
  bool a = zstd::maybe_decompress(zv, v2.data(), n), b = zstd::maybe_decompress(zw, w2.data(), n), c = zstd::maybe_decompress(zp, p2.data(), n);
  VP_NAMED("element round trip", a && b && c && v == v2 && w == w2, ""); for (std::size_t i = 0; i < n; ++i) VP_NAMED("element round trip", p[i].a == p2[i].a && p[i].b == p2[i].b, "");
  std::vector<double> v3(n + 1, 5.); bool d = zstd::maybe_decompress(zv, v3.data(), n + 1), e = n > 0 && zstd::maybe_decompress(zv, v3.data(), n - 1);
  VP_NAMED("wrong element count is a failure", !d && !e, ""); for (auto x : v3) VP_NAMED("wrong element count leaves the buffer", x == 5., "");
  std::vector<double> v4(n); zstd::decompress(zv, v4.data(), n); VP_NAMED("element round trip", v4 == v, "");
}
VP_TEST(corrupted) {
  std::string z = zstd::compress(bytes(r), r.range(-3, 6));
  switch (r.range(0, 5)) {
  case 0: z.resize(std::size_t(r.range(0, int(z.size())))); break;
  case 1: z[std::size_t(r.range(0, int(z.size()) - 1))] ^= char(1 << r.range(0, 7)); break;
  case 2: for (int i = 0; i < 4; ++i) z[std::size_t(r.range(0, std::min(20, int(z.size()) - 1)))] = char(r.next()); break;
  case 3: z += bytes(r); break;
  case 4: z += zstd::compress(bytes(r)); break;
  default: z[std::size_t(r.range(0, std::min(13, int(z.size()) - 1)))] = char(r.next());
  }
  untrusted(z);
}
VP_TEST(foreign) {
  std::string s;
  switch (r.range(0, 3)) {
  case 0: s = bytes(r); break;
  case 1: s = std::string("\x28\xB5\x2F\xFD", 4) + bytes(r).substr(0, 30); break;
  case 2: { s = std::string("\x28\xB5\x2F\xFD\xE0", 5); unsigned long long n = 1ull << r.range(0, 63); n -= r.range(0, 2); for (int i = 0; i < 8; ++i) s.push_back(char(n >> (8 * i))); s += r.coin() ? std::string("\x01\0\0", 3) : bytes(r).substr(0, 9); break; }
  default: s = std::string("\x50\x2A\x4D\x18\x04\0\0\0", 8) + bytes(r).substr(0, 4);
  }
  untrusted(s);
}
VP_MAIN
