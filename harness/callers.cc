#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
#include <albatross/CovarianceFunctions>
namespace vpx {
double k(int x, double y);
double s(int x, int y);
double m(int x);
}
namespace vph {
using namespace albatross;
struct B { double v; };   // no conversion to or from int
struct K : public CovarianceFunction<K> { double _call_impl(const int &x, const B &y) const { return vpx::k(x, y.v); } };
struct S : public CovarianceFunction<S> { double _call_impl(const int &x, const int &y) const { return vpx::s(x, y); } };
struct M : public MeanFunction<M> { double _call_impl(const int &x) const { return vpx::m(x); } };
typedef std::vector<int> Ints;
typedef std::vector<B> Reals;
typedef Eigen::MatrixXd Mat;
Mat cross(const K &c, const Ints &xs, const Reals &ys) { return c(xs, ys); }
Mat cross_swapped(const K &c, const Reals &xs, const Ints &ys) { return c(xs, ys); }
Mat cross_pool(const K &c, const Ints &xs, const Reals &ys, ThreadPool &pool) { return c(xs, ys, &pool); }
Mat auto_(const S &c, const Ints &xs) { return c(xs); }
Mat auto_pool(const S &c, const Ints &xs, ThreadPool &pool) { return c(xs, &pool); }
Eigen::VectorXd diagonal(const S &c, const Ints &xs) { return c.diagonal(xs); }
Eigen::VectorXd mean(const M &c, const Ints &xs) { return c(xs); }
double scalar(const K &c, const int &x, const B &y) { return c(x, y); }
double scalar_swapped(const K &c, const B &x, const int &y) { return c(x, y); }
double scalar_mean(const M &c, const int &x) { return c(x); }
std::vector<std::pair<Eigen::Index, Eigen::Index>> triangular(long size, long n) { return detail::partition_triangular(size, n); }
}
