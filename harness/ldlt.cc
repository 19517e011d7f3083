// every square-root operation of the factorisation
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/src/eigen/serializable_ldlt.hpp>
#include <albatross/src/linalg/qr_utils.hpp>
namespace vph {
using namespace albatross;
typedef Eigen::SerializableLDLT S;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
typedef std::vector<std::vector<std::size_t>> Blocks;
M sqrt_product(const S &s, const M &rhs) { return s.sqrt_product(rhs); }
M sqrt_solve(const S &s, const M &rhs) { return s.sqrt_solve(rhs); }
M sqrt_solve_vec(const S &s, const V &rhs) { return s.sqrt_solve(rhs); }
M sqrt_transpose(const S &s) { return s.sqrt_transpose(); }
M sqrt_transpose_solve(const S &s, const M &rhs) { return s.sqrt_transpose_solve(rhs); }
V sqrt_transpose_solve_vec(const S &s, const V &rhs) { return s.sqrt_transpose_solve(rhs); }
double log_determinant(const S &s) { return s.log_determinant(); }
V diagonal_sqrt(const S &s) { return s.diagonal_sqrt().diagonal(); }
V diagonal_sqrt_inverse(const S &s) { return s.diagonal_sqrt_inverse().diagonal(); }
std::vector<M> inverse_blocks(const S &s, const Blocks &blocks) { return s.inverse_blocks(blocks); }
std::vector<M> inverse_blocks_pool(const S &s, const Blocks &blocks, ThreadPool *pool) { return s.inverse_blocks(blocks, pool); }
V inverse_diagonal(const S &s) { return s.inverse_diagonal(); }
bool positive_definite(const S &s) { return s.is_positive_definite(); }
M rebuild(const M &a, const M &rhs) { return S(a).solve(rhs); }
M get_r(const Eigen::ColPivHouseholderQR<M> &qr) { return get_R(qr); }
M qr_sqrt_solve(const Eigen::ColPivHouseholderQR<M> &qr, const M &rhs) { return albatross::sqrt_solve(qr, rhs); }
}
