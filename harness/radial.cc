#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
#include <albatross/CovarianceFunctions>
namespace vpx {
double distance(int x, int y);
double scale(int x);
double other(int x, int y);
}
namespace vph {
using namespace albatross;
typedef Eigen::VectorXd V;
typedef EuclideanDistance E;
typedef RadialDistance R;
typedef AngularDistance An;
struct X { int v; };
struct Y { int v; };
struct D { double operator()(const X &x, const X &y) const { return vpx::distance(x.v, y.v); } std::string get_name() const { return "d"; } };   // any metric
double squared_exponential(double d, double l, double s) { return squared_exponential_covariance(d, l, s); }
double exponential(double d, double l, double s) { return exponential_covariance(d, l, s); }
double matern_32(double d, double l, double s) { return matern_32_covariance(d, l, s); }
double matern_52(double d, double l, double s) { return matern_52_covariance(d, l, s); }
double k_squared_exponential(const SquaredExponential<D> &k, const X &x, const X &y) { return k(x, y); }
double k_exponential(const Exponential<D> &k, const X &x, const X &y) { return k(x, y); }
double k_matern_32(const Matern32<D> &k, const X &x, const X &y) { return k(x, y); }
double k_matern_52(const Matern52<D> &k, const X &x, const X &y) { return k(x, y); }
double k_euclidean(const SquaredExponential<E> &k, const double &x, const double &y) { return k(x, y); }
double k_angular(const Exponential<An> &k, const V &x, const V &y) { return k(x, y); }
double euclidean(const E &d, const double &x, const double &y) { return d(x, y); }
double euclidean_vector(const E &d, const V &x, const V &y) { return d(x, y); }
double radial(const R &d, const V &x, const V &y) { return d(x, y); }
double angular(const An &d, const V &x, const V &y) { return d(x, y); }
Eigen::MatrixXd distances(const D &d, const std::vector<X> &xs) { return distance_matrix(d, xs); }
double constant(const Constant &k, const X &x, const Y &y) { return k(x, y); }
double nugget(const Nugget &k, const double &x, const double &y) { return k(x, y); }
double noise(const IndependentNoise<int> &k, const int &x, const int &y) { return k(x, y); }
double polynomial_0(double s, double x, double y) { Polynomial<0> k(s); return k(x, y); }
double polynomial_1(double s, double x, double y) { Polynomial<1> k(s); return k(x, y); }
double polynomial_3(double s, double x, double y) { Polynomial<3> k(s); return k(x, y); }
double linear_mean(const LinearMean &m, const double &x) { return m(x); }
double zero_mean(const ZeroMean &m, const double &x) { return m(x); }
double derive_squared_exponential(double d, double prior, double increase) { return derive_squared_exponential_length_scale(d, prior, increase); }
double derive_exponential(double d, double prior, double increase) { return derive_exponential_length_scale(d, prior, increase); }
double member_squared_exponential(const SquaredExponential<E> &k, double d, double prior, double increase) { return k.derive_length_scale(d, prior, increase); }
double member_exponential(const Exponential<E> &k, double d, double prior, double increase) { return k.derive_length_scale(d, prior, increase); }
struct F { double l, s; double operator()(double d) const { return squared_exponential_covariance(d, l, s); } };
double noise_equivalent(double l, double s, double d) { return process_noise_equivalent(F{l, s}, d); }
// scaling functions
struct S : public ScalingFunction { std::string get_name() const override { return "s"; } double _call_impl(const X &x) const { return vpx::scale(x.v); } };
struct O : public CovarianceFunction<O> { double _call_impl(const X &x, const X &y) const { return vpx::other(x.v, y.v); } double _call_impl(const Y &x, const Y &y) const { return vpx::other(x.v, y.v); } };
double scaling(const ScalingTerm<S> &k, const X &x, const X &y) { return k(x, y); }
double scaling_left(const ScalingTerm<S> &k, const X &x, const Y &y) { return k(x, y); }
double scaling_right(const ScalingTerm<S> &k, const Y &x, const X &y) { return k(x, y); }
double scaled(const ProductOfCovarianceFunctions<ScalingTerm<S>, O> &k, const X &x, const X &y) { return k(x, y); }
double scaled_right(const ProductOfCovarianceFunctions<O, ScalingTerm<S>> &k, const X &x, const X &y) { return k(x, y); }
double scaled_undefined(const ProductOfCovarianceFunctions<ScalingTerm<S>, O> &k, const Y &x, const Y &y) { return k(x, y); }
double scaled_right_undefined(const ProductOfCovarianceFunctions<O, ScalingTerm<S>> &k, const Y &x, const Y &y) { return k(x, y); }
}
