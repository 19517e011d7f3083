#include <albatross/Common>
#include "vpe.h"
using namespace albatross;
typedef long double R;
// closed forms, independent of the recurrence
static R T(long n, R x) {
  if (std::fabs(double(x)) <= 1) return std::cos(R(n) * std::acos(x));
  R v = std::cosh(R(n) * std::acosh(std::fabs(x)));
  return x < 0 && n % 2 ? -v : v;
}
static R U(long n, R x) {
  if (x == 1) return R(n + 1);
  if (x == -1) return n % 2 ? -R(n + 1) : R(n + 1);
  if (std::fabs(double(x)) < 1) { R a = std::acos(x); return std::sin(R(n + 1) * a) / std::sin(a); }
  R a = std::acosh(std::fabs(x)), v = std::sinh(R(n + 1) * a) / std::sinh(a);
  return x < 0 && n % 2 ? -v : v;
}
static bool near(double got, R want, long n) { return std::fabs(double(R(got) - want)) <= 1e-11 * double(n + 2) * double(n + 2) * (1 + std::fabs(double(want))); }
static Eigen::ArrayXd points(vp::Rng &r) {
  Eigen::ArrayXd x(r.range(0, 6));
  for (Eigen::Index i = 0; i < x.size(); ++i) { int k = r.range(0, 9); x[i] = k < 6 ? r.real(-1, 1) : k == 6 ? double(r.range(-1, 1)) : k == 7 ? r.real(-0.05, 0.05) : k == 8 ? std::ldexp(1.0, -r.range(1, 30)) : -1 + std::ldexp(1.0, -r.range(8, 20)); }
  return x;
}
VP_TEST(evaluation) {
  long n = r.range(0, 4) ? r.range(0, 12) : r.range(0, 80);
  Eigen::ArrayXd x = points(r), copy = x;
  vp::describe("degree " + std::to_string(n) + " at " + vp::str(Eigen::MatrixXd(x.matrix())));
  Eigen::ArrayXd t = chebyshev_t(n, x), u = chebyshev_u(n, x);
  VP_NAMED("one value per argument", t.size() == x.size() && u.size() == x.size(), "");
  for (Eigen::Index i = 0; i < x.size(); ++i) {
    VP_NAMED("T", near(t[i], T(n, x[i]), n), vp::str(t[i]) + " instead of " + vp::str(double(T(n, x[i]))));
    VP_NAMED("U", near(u[i], U(n, x[i]), n), vp::str(u[i]) + " instead of " + vp::str(double(U(n, x[i]))));
    VP_NAMED("argument unchanged", x[i] == copy[i], "");
  }
}
VP_TEST(basis) {
  long n = r.range(0, 4) ? r.range(0, 8) : r.range(0, 60);
  Eigen::ArrayXd x = points(r);
  vp::describe("basis to degree " + std::to_string(n) + " at " + vp::str(Eigen::MatrixXd(x.matrix())));
  Eigen::ArrayXXd t = chebyshev_t_phi(n, x), u = chebyshev_u_phi(n, x);
  VP_NAMED("basis shape", t.rows() == x.size() && t.cols() == n + 1 && u.rows() == x.size() && u.cols() == n + 1, "");
  for (Eigen::Index i = 0; i < x.size(); ++i) for (long k = 0; k <= n; ++k) {
    VP_NAMED("T basis", near(t(i, k), T(k, x[i]), k), "column " + std::to_string(k) + " holds " + vp::str(t(i, k)));
    VP_NAMED("U basis", near(u(i, k), U(k, x[i]), k), "column " + std::to_string(k) + " holds " + vp::str(u(i, k)));
  }
}
VP_MAIN
