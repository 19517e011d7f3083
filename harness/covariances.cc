#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
#include <albatross/CovarianceFunctions>
namespace vpx {
double a(int x, int y);      // X, X
double ay(int x, int y);     // X, Y
double b(int x, int y);      // X, X
double c(int x, int y);      // Y, Y
double m(int x);
double w(int y);
}
namespace vph {
using namespace albatross;
struct X { int v; };
struct Y { int v; };
struct Z { int v; };
struct A : public CovarianceFunction<A> {
  double _call_impl(const X &x, const X &y) const { return vpx::a(x.v, y.v); }
  double _call_impl(const X &x, const Y &y) const { return vpx::ay(x.v, y.v); }
};
struct B : public CovarianceFunction<B> { double _call_impl(const X &x, const X &y) const { return vpx::b(x.v, y.v); } };
struct C : public CovarianceFunction<C> { double _call_impl(const Y &x, const Y &y) const { return vpx::c(x.v, y.v); } };
struct M : public MeanFunction<M> { double _call_impl(const X &x) const { return vpx::m(x.v); } };
struct N : public MeanFunction<N> { double _call_impl(const X &x) const { return vpx::m(x.v); } double _call_impl(const Y &x) const { return vpx::w(x.v); } };
typedef Measurement<X> MX;
typedef Measurement<Y> MY;
typedef variant<X, Y> XY;
typedef variant<MX, MY> MXY;
typedef LinearCombination<X> LX;
typedef LinearCombination<Y> LY;
typedef SumOfCovarianceFunctions<A, B> AplusB;
typedef SumOfCovarianceFunctions<B, A> BplusA;
typedef SumOfCovarianceFunctions<B, C> BplusC;
typedef ProductOfCovarianceFunctions<A, B> AxB;
typedef ProductOfCovarianceFunctions<B, A> BxA;
typedef SumOfCovarianceFunctions<A, MeasurementOnly<B>> AplusMB;
typedef ProductOfCovarianceFunctions<A, MeasurementOnly<B>> AxMB;
// sums and products
double sum_both(const AplusB &k, const X &x, const X &y) { return k(x, y); }
double sum_left(const AplusB &k, const X &x, const Y &y) { return k(x, y); }
double sum_left_swapped(const AplusB &k, const Y &x, const X &y) { return k(x, y); }
double sum_right(const BplusA &k, const X &x, const Y &y) { return k(x, y); }
double sum_right_swapped(const BplusA &k, const Y &x, const X &y) { return k(x, y); }
double sum_other(const BplusC &k, const Y &x, const Y &y) { return k(x, y); }
double product_both(const AxB &k, const X &x, const X &y) { return k(x, y); }
double product_left(const AxB &k, const X &x, const Y &y) { return k(x, y); }
double product_right(const BxA &k, const X &x, const Y &y) { return k(x, y); }
double product_right_swapped(const BxA &k, const Y &x, const X &y) { return k(x, y); }
double nested(const ProductOfCovarianceFunctions<AplusB, B> &k, const X &x, const X &y) { return k(x, y); }
double nested_left(const ProductOfCovarianceFunctions<AplusB, B> &k, const X &x, const Y &y) { return k(x, y); }
AplusB make_sum(const A &a, const B &b) { return a + b; }
AxB make_product(const A &a, const B &b) { return a * b; }
// measurements
double meas_both(const AplusMB &k, const MX &x, const MX &y) { return k(x, y); }
double meas_left(const AplusMB &k, const MX &x, const X &y) { return k(x, y); }
double meas_right(const AplusMB &k, const X &x, const MX &y) { return k(x, y); }
double meas_none(const AplusMB &k, const X &x, const X &y) { return k(x, y); }
double meas_cross(const AplusMB &k, const MX &x, const MY &y) { return k(x, y); }
double meas_only(const MeasurementOnly<B> &k, const MX &x, const MX &y) { return k(x, y); }
double meas_only_left(const MeasurementOnly<B> &k, const MX &x, const X &y) { return k(x, y); }
double meas_only_right(const MeasurementOnly<B> &k, const X &x, const MX &y) { return k(x, y); }
double meas_only_none(const MeasurementOnly<B> &k, const X &x, const X &y) { return k(x, y); }
double meas_product(const AxMB &k, const MX &x, const MX &y) { return k(x, y); }
double meas_product_none(const AxMB &k, const X &x, const X &y) { return k(x, y); }
// linear combinations
double lin_right(const AplusB &k, const X &x, const LX &y) { return k(x, y); }
double lin_left(const AplusB &k, const LX &x, const X &y) { return k(x, y); }
double lin_both(const AplusB &k, const LX &x, const LX &y) { return k(x, y); }
double lin_cross(const A &k, const LY &x, const LX &y) { return k(x, y); }
double lin_cross_scalar(const A &k, const LY &x, const X &y) { return k(x, y); }
double lin_meas(const AplusMB &k, const MX &x, const Measurement<LX> &y) { return k(x, y); }
double lin_mean(const M &k, const LX &x) { return k(x); }
// variants
double var_right(const A &k, const X &x, const XY &y) { return k(x, y); }
double var_left(const A &k, const XY &x, const X &y) { return k(x, y); }
double var_both(const SumOfCovarianceFunctions<A, C> &k, const XY &x, const XY &y) { return k(x, y); }
double var_sum(const BplusC &k, const XY &x, const XY &y) { return k(x, y); }
double var_meas(const SumOfCovarianceFunctions<AplusMB, C> &k, const MXY &x, const MXY &y) { return k(x, y); }
double var_lin(const BplusC &k, const LinearCombination<XY> &x, const X &y) { return k(x, y); }
double var_mean(const M &k, const XY &x) { return k(x); }
double var_mean2(const N &k, const XY &x) { return k(x); }
double meas_mean(const M &k, const MX &x) { return k(x); }
// noise
double noise(const IndependentNoise<int> &k, const int &x, const int &y) { return k(x, y); }
std::vector<MX> measured(const std::vector<X> &xs) { return as_measurements(xs); }
LX lin_sum(const X &x, const X &y) { return linear_combination::sum(x, y); }
LX lin_difference(const X &x, const X &y) { return linear_combination::difference(x, y); }
LX lin_mean_of(const std::vector<X> &xs) { return linear_combination::mean(xs); }
LX lin_ones(const std::vector<X> &xs) { return LX(xs); }
LX lin_given(const std::vector<X> &xs, const Eigen::VectorXd &w) { return LX(xs, w); }
LX lin_single(const X &x) { return linear_combination::to_linear_combination(x); }
LinearCombination<XY> lin_sum_mixed(const X &x, const Y &y) { return linear_combination::sum(x, y); }
LinearCombination<XY> lin_difference_mixed(const X &x, const Y &y) { return linear_combination::difference(x, y); }
}
