// every operation of block diagonal matrices and factorisations
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/src/eigen/serializable_ldlt.hpp>
#include <albatross/src/linalg/block_diagonal.hpp>
namespace vph {
using namespace albatross;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
typedef BlockDiagonalLDLT F;
typedef BlockDiagonal B;
M solve(const F &f, const M &rhs) { return f.solve(rhs); }
M solve_vec(const F &f, const V &rhs) { return f.solve(rhs); }
M solve_part(const F &f, const M &rhs, Eigen::Index i, Eigen::Index n) { return f.solve(rhs.block(0, i, rhs.rows(), n)); }
M sqrt_solve(const F &f, const M &rhs) { return f.sqrt_solve(rhs); }
M sqrt_solve_vec(const F &f, const V &rhs) { return f.sqrt_solve(rhs); }
M solve_pool(const F &f, const M &rhs, ThreadPool *p) { return f.solve(rhs, p); }
M sqrt_solve_pool(const F &f, const M &rhs, ThreadPool *p) { return f.sqrt_solve(rhs, p); }
V solve_vec_pool(const F &f, const V &rhs, ThreadPool *p) { return f.solve(rhs, p); }
V sqrt_solve_vec_pool(const F &f, const V &rhs, ThreadPool *p) { return f.sqrt_solve(rhs, p); }
std::map<size_t, Eigen::Index> row_map(const F &f) { return f.block_to_row_map(); }
double log_determinant(const F &f) { return f.log_determinant(); }
Eigen::Index factor_rows(const F &f) { return f.rows(); }
Eigen::Index factor_cols(const F &f) { return f.cols(); }
Eigen::Index matrix_rows(const B &b) { return b.rows(); }
Eigen::Index matrix_cols(const B &b) { return b.cols(); }
M product(const B &b, const M &rhs) { return b * rhs; }
V product_vec(const B &b, const V &rhs) { return b * rhs; }
B minus(const B &a, const B &b) { return a - b; }
M dense(const B &b) { return b.toDense(); }
V diagonal(const B &b) { return b.diagonal(); }
F ldlt(const B &b) { return b.ldlt(); }
F adjoint(const F &f) { return f.adjoint(); }
}
