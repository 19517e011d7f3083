// LIBS: -lz -pthread
#define VP_THREADS
#include "vpgp.h"
VP_TEST(regression) {
  int n = r.range(2, 10);
  TK = gen(r, n); TN = r.coin() ? gen(r, n) : MatrixXd::Zero(n, n); TM = vp::vec(r, n); TMM = r.coin() ? TM : VectorXd(vp::vec(r, n));
  std::vector<std::size_t> tr = vp::distinct(r, n, r.range(1, std::min(n, 7))), te = vp::indices(r, n, r.range(0, 6));
  int k = int(tr.size());
  VectorXd y = vp::vec(r, k, 5), R = variances(r, k);
  std::vector<X> xs, to;
  for (auto i : tr) xs.push_back(X{int(i)});
  for (auto i : te) to.push_back(X{int(i)});
  const K kernel; Model model(kernel, M());
  if (r.coin()) model.set_thread_pool(make_shared_thread_pool(std::size_t(r.range(1, 4))));
  vp::describe("prior covariance " + vp::str(TK) + " measurement covariance " + vp::str(TN) + " means " + vp::str(TM) + vp::str(TMM) + " training " + vp::str(vp::pick(VectorXd::LinSpaced(n, 0, n - 1), tr)) +
               " values " + vp::str(y) + " variances " + vp::str(R) + " predicted " + vp::str(vp::pick(VectorXd::LinSpaced(n, 0, n - 1), te)));
  MatrixXd N = sub(TK, tr, tr) + sub(TN, tr, tr);
  for (int i = 0; i < k; ++i) N(i, i) += R[i];
  RegressionDataset<X> data(xs, MarginalDistribution(y, R));
  const auto fit = model.fit(data);
  Post plain = condition(N, sub(TK, tr, te), sub(TK, te, te), y - vp::pick(TMM, tr), vp::pick(TM, te));
  Post noisy = condition(N, sub(TK, tr, te), sub(TK, te, te) + sub(TN, te, te), y - vp::pick(TMM, tr), vp::pick(TMM, te));
  judge("posterior", fit.predict(to), plain);
  judge("posterior of a temporary", model.fit(data).predict(to), plain);
  judge("posterior of measurements", fit.predict_with_measurement_noise(to), noisy);
  judge("posterior of measurement features", fit.predict(as_measurements(to)), noisy);
  {
    const auto measured = model.fit(RegressionDataset<MX>(as_measurements(xs), MarginalDistribution(y, R)));
    judge("posterior from measurement features", measured.predict(to), plain);
    judge("posterior of measurement features with measurement noise", fit.predict_with_measurement_noise(as_measurements(to)), noisy);
    // measurements of the training features share their covariance with other measurements
    Post shared = condition(N, sub(TK, tr, te) + sub(TN, tr, te), sub(TK, te, te) + sub(TN, te, te), y - vp::pick(TMM, tr), vp::pick(TMM, te));
    judge("posterior of measurements from measurement features", measured.predict_with_measurement_noise(to), shared);
  }
  if (r.coin()) {
    const auto plain_targets = model.fit(xs, MarginalDistribution(y));
    MatrixXd N0 = N; for (int i = 0; i < k; ++i) N0(i, i) -= R[i];
    judge("posterior of exact values", plain_targets.predict(to), condition(N0, sub(TK, tr, te), sub(TK, te, te), y - vp::pick(TMM, tr), vp::pick(TM, te)));
  }
  const auto &g = fit.get_fit();
  VP_NAMED("training features", g.train_features == xs, "");
  VP_NAMED("information", near(vp::mul(N, g.information), MatrixXd(y - vp::pick(TMM, tr)), 100 * big(y)), vp::str(g.information));
  VP_NAMED("solve operator", near(vp::mul(N, MatrixXd(g.train_covariance.solve(sub(TK, tr, te)))), sub(TK, tr, te), 100 * big(TK)), "");
  const JointDistribution prior = model.prior(to);
  VP_NAMED("prior mean", to.empty() || near(prior.mean, vp::pick(TMM, te), 1), vp::str(prior.mean));
  VP_NAMED("prior covariance", to.empty() || near(prior.covariance, sub(TK, te, te) + sub(TN, te, te), big(TK) + big(TN)), vp::str(prior.covariance));
}
VP_TEST(from_prediction) {
  int n = r.range(1, 6);
  TK = gen(r, n); TN = gen(r, n); TM = vp::vec(r, n); TMM = TM;
  std::vector<X> xs; for (int i = 0; i < n; ++i) xs.push_back(X{i});
  MatrixXd P = r.range(0, 3) ? MatrixXd(gen(r, n)) : MatrixXd(0.3 * TK);
  JointDistribution given(vp::vec(r, n), P);
  vp::describe("prior covariance " + vp::str(TK) + " prediction " + vp::str(given.mean) + vp::str(P));
  const K kernel; const auto f = Model(kernel, M()).fit_from_prediction(xs, given);
  judge("recovered prediction", f.predict(xs), Post{given.mean, P});
}
VP_TEST(conditional) {
  int n = r.range(2, 9);
  TK = gen(r, n);
  JointDistribution prior(vp::vec(r, n), TK); MarginalDistribution truth(vp::vec(r, n), variances(r, n));
  std::vector<std::size_t> tr = vp::distinct(r, n, r.range(1, n)), te = vp::indices(r, n, r.range(1, 5));
  vp::describe("joint " + vp::str(prior.mean) + vp::str(TK) + " truth " + vp::str(truth.mean) + vp::str(VectorXd(truth.covariance.diagonal())) + " given " + vp::str(vp::pick(VectorXd::LinSpaced(n, 0, n - 1), tr)) + " wanted " + vp::str(vp::pick(VectorXd::LinSpaced(n, 0, n - 1), te)));
  ConditionalGaussian c(prior, truth);
  MatrixXd N = sub(TK, tr, tr);
  for (std::size_t i = 0; i < tr.size(); ++i) N(int(i), int(i)) += truth.covariance.diagonal()[Eigen::Index(tr[i])];
  judge("conditional", c.fit(tr).predict(te), condition(N, sub(TK, tr, te), sub(TK, te, te), vp::pick(truth.mean, tr) - vp::pick(prior.mean, tr), vp::pick(prior.mean, te)));
}
// composed covariance functions over numbers, against the covariance values themselves
VP_TEST(composed) {
  auto cov = SquaredExponential<EuclideanDistance>(r.real(1, 20), r.real(0.5, 5)) + Exponential<EuclideanDistance>(r.real(1, 20), r.real(0.5, 5)) + measurement_only(IndependentNoise<double>(r.real(0.3, 2)));
  LinearMean mean; mean.slope.value = r.real(-2, 2); mean.offset.value = r.real(-5, 5);
  int k = r.range(1, 8), q = r.range(1, 6);
  std::vector<double> xs, to; std::set<int> used;
  while (int(xs.size()) < k) { int i = r.range(-30, 30); if (used.insert(i).second) xs.push_back(i * 0.7); }
  for (int i = 0; i < q; ++i) to.push_back(r.coin() ? xs[std::size_t(r.range(0, k - 1))] : r.real(-20, 20));
  VectorXd y = vp::vec(r, k, 5), R = variances(r, k);
  auto sig = [&](double a, double b) { return cov(a, b); };
  auto msig = [&](double a, double b) { return cov(Measurement<double>(a), Measurement<double>(b)); };
  MatrixXd N(k, k), Kx(k, q), S(q, q), SN(q, q); VectorXd res(k), ms(q);
  for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) N(i, j) = msig(xs[std::size_t(i)], xs[std::size_t(j)]) + (i == j ? R[i] : 0); for (int j = 0; j < q; ++j) Kx(i, j) = sig(xs[std::size_t(i)], to[std::size_t(j)]); res[i] = y[i] - mean(xs[std::size_t(i)]); }
  for (int i = 0; i < q; ++i) { for (int j = 0; j < q; ++j) { S(i, j) = sig(to[std::size_t(i)], to[std::size_t(j)]); SN(i, j) = msig(to[std::size_t(i)], to[std::size_t(j)]); } ms[i] = mean(to[std::size_t(i)]); }
  TK = N;
  std::ostringstream o; o.precision(17); for (double x : xs) o << x << ","; o << " to "; for (double x : to) o << x << ",";
  vp::describe("composed model at " + o.str() + " values " + vp::str(y) + " variances " + vp::str(R));
  auto model = gp_from_covariance_and_mean(cov, mean);
  const auto fit = model.fit(RegressionDataset<double>(xs, MarginalDistribution(y, R)));
  judge("composed", fit.predict(to), condition(N, Kx, S, res, ms));
  judge("composed, measurements", fit.predict_with_measurement_noise(to), condition(N, Kx, SN, res, ms));
}
VP_MAIN
