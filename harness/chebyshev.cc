#include <albatross/Common>
namespace vph {
using namespace albatross;
Eigen::ArrayXd t(const Eigen::Index &n, const Eigen::ArrayXd &x) { return chebyshev_t(n, x); }
Eigen::ArrayXd u(const Eigen::Index &n, const Eigen::ArrayXd &x) { return chebyshev_u(n, x); }
Eigen::ArrayXXd t_phi(const Eigen::Index &n, const Eigen::ArrayXd &x) { return chebyshev_t_phi(n, x); }
Eigen::ArrayXXd u_phi(const Eigen::Index &n, const Eigen::ArrayXd &x) { return chebyshev_u_phi(n, x); }
}
