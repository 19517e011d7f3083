// LIBS: -lz -pthread
#define VP_THREADS
#include "vpgp.h"
typedef std::vector<std::size_t> Ix;
static std::vector<X> features(const Ix &ix) { std::vector<X> o; for (auto i : ix) o.push_back(X{int(i)}); return o; }
struct Batch { Ix ix; VectorXd y, R; };
static RegressionDataset<X> data(const Batch &b) { return RegressionDataset<X>(features(b.ix), MarginalDistribution(b.y, b.R)); }
static RegressionDataset<MX> measured(const Batch &b) { return RegressionDataset<MX>(as_measurements(features(b.ix)), MarginalDistribution(b.y, b.R)); }
// covariance of all batches up to the given one
struct All { Ix ix; MatrixXd N; VectorXd res; std::vector<std::size_t> of; };
static All all(const std::vector<Batch> &bs, std::size_t n) {
  All a; std::vector<double> y, R;
  for (std::size_t b = 0; b < n; ++b) for (std::size_t i = 0; i < bs[b].ix.size(); ++i) { a.ix.push_back(bs[b].ix[i]); y.push_back(bs[b].y[int(i)]); R.push_back(bs[b].R[int(i)]); a.of.push_back(b); }
  int k = int(a.ix.size()); a.N.resize(k, k); a.res.resize(k);
  for (int i = 0; i < k; ++i) { int p = int(a.ix[std::size_t(i)]); a.res[i] = y[std::size_t(i)] - TMM[p]; for (int j = 0; j < k; ++j) { int q = int(a.ix[std::size_t(j)]); a.N(i, j) = TK(p, q) + (a.of[std::size_t(i)] == a.of[std::size_t(j)] ? TN(p, q) : 0.) + (i == j ? R[std::size_t(i)] : 0.); } }
  return a;
}
template <typename F> static void look(const std::string &what, const F &fit, const All &a, const Ix &te, const MatrixXd &rhs, std::size_t from = 99) {
  std::vector<X> to = features(te);
  Post plain = condition(a.N, sub(TK, a.ix, te), sub(TK, te, te), a.res, vp::pick(TM, te));
  // trained on measurements from this batch on: they share their covariance with predicted measurements
  MatrixXd cross = sub(TK, a.ix, te), extra = sub(TN, a.ix, te);
  for (std::size_t i = 0; i < a.ix.size(); ++i) for (std::size_t j = 0; j < te.size(); ++j) if (a.of[i] >= from) cross(int(i), int(j)) += extra(int(i), int(j));
  Post noisy = condition(a.N, cross, sub(TK, te, te) + sub(TN, te, te), a.res, vp::pick(TMM, te));
  judge(what, fit.predict(to), plain);
  judge(what + ", measurements", fit.predict_with_measurement_noise(to), noisy);
  const auto &g = fit.get_fit();
  VP_NAMED(what + ": number of training features", g.train_features.size() == a.ix.size(), "");
  VP_NAMED(what + ": size of the covariance", std::size_t(g.train_covariance.rows()) == a.ix.size() && std::size_t(g.train_covariance.cols()) == a.ix.size(), "");
  VP_NAMED(what + ": information", near(vp::mul(a.N, g.information), a.res, 100 * big(a.res) + big(a.N)), vp::str(g.information));
  MatrixXd B = rhs.topRows(Eigen::Index(a.ix.size()));
  VP_NAMED(what + ": solve operator", near(vp::mul(a.N, MatrixXd(g.train_covariance.solve(B))), B, 100 * big(B) + big(a.N)), "");
}
template <typename F> static void order(const std::string &what, const F &fit, const Ix &ix) {
  bool ok = fit.get_fit().train_features.size() == ix.size();
  for (std::size_t i = 0; ok && i < ix.size(); ++i) ok = fit.get_fit().train_features[i].v == int(ix[i]);
  VP_NAMED(what + ": training features", ok, "");
}
VP_TEST(updates) {
  int n = r.range(3, 12), nb = r.range(2, 4);
  TK = gen(r, n); TM = vp::vec(r, n); TMM = r.coin() ? TM : VectorXd(vp::vec(r, n));
  Ix perm = vp::distinct(r, n, n); std::vector<Batch> bs; std::size_t at = 0;
  TN = MatrixXd::Zero(n, n);
  int noise = r.range(0, 3);
  for (int b = 0; b < nb && at < perm.size(); ++b) {
    int k = std::min(r.range(1, b ? 3 : 5), int(perm.size() - at));
    Batch q; for (int i = 0; i < k; ++i) q.ix.push_back(perm[at++]);
    q.y = vp::vec(r, k, 5); q.R = variances(r, k);
    if (noise) { MatrixXd e = gen(r, k); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) TN(int(q.ix[std::size_t(i)]), int(q.ix[std::size_t(j)])) = noise == 1 && i != j ? 0. : e(i, j); }
    bs.push_back(q);
  }
  if (bs.size() < 2) return;
  Ix te = vp::indices(r, n, r.range(0, 5));
  std::string d = "prior covariance " + vp::str(TK) + " measurement covariance " + vp::str(TN) + " means " + vp::str(TM) + vp::str(TMM);
  for (const auto &b : bs) d += " batch " + vp::str(vp::pick(VectorXd::LinSpaced(n, 0, n - 1), b.ix)) + " values " + vp::str(b.y) + " variances " + vp::str(b.R);
  vp::describe(d);
  const K kernel; Model model(kernel, M());
  if (r.coin()) model.set_thread_pool(make_shared_thread_pool(std::size_t(r.range(1, 3))));
  MatrixXd rhs = vp::mat(r, n, r.range(1, 3));
  const auto f1 = model.fit(data(bs[0]));
  look("first fit", f1, all(bs, 1), te, rhs);
  const auto f2 = f1.update(data(bs[1])); const All a2 = all(bs, 2);
  look("updated fit", f2, a2, te, rhs); order("updated fit", f2, a2.ix);
  look("updated fit, free function", update(f1, data(bs[1])), a2, te, rhs);
  look("updated fit, features and targets", f1.update(features(bs[1].ix), MarginalDistribution(bs[1].y, bs[1].R)), a2, te, rhs);
  look("first fit after updating", f1, all(bs, 1), te, rhs);
  look("measurements updated with measurements", model.fit(measured(bs[0])).update(measured(bs[1])), a2, te, rhs, 0);
  const auto mixed = f1.update(measured(bs[1]));
  look("features updated with measurements", mixed, a2, te, rhs, 1);
  {
    All e = all(bs, 1); const auto exact = f1.update(features(bs[1].ix), MarginalDistribution(bs[1].y));
    All a = a2; int k0 = int(e.ix.size()); for (int i = k0; i < int(a.ix.size()); ++i) a.N(i, i) -= bs[1].R[i - k0];
    look("updated with exact values", exact, a, te, rhs);
  }
  if (bs.size() > 2) { const auto f3 = f2.update(data(bs[2])); const All a3 = all(bs, 3); look("updated twice", f3, a3, te, rhs); order("updated twice", f3, a3.ix);
    if (bs.size() > 3) { const auto f4 = f3.update(data(bs[3])); const All a4 = all(bs, 4); look("updated three times", f4, a4, te, rhs); order("updated three times", f4, a4.ix); } }
}
template <typename S> static void block(vp::Rng &r, const std::string &what, const S &b, const MatrixXd &full) {
  MatrixXd rhs = vp::mat(r, int(full.rows()), r.range(1, 4)); VectorXd v = vp::vec(r, int(full.rows()));
  double s = 100 * big(rhs) * big(full);
  VP_NAMED(what + ": rows and columns", b.rows() == full.rows() && b.cols() == full.cols(), "");
  VP_NAMED(what + ": solves for a matrix", near(vp::mul(full, MatrixXd(b.solve(rhs))), rhs, s), vp::str(b.solve(rhs)));
  VP_NAMED(what + ": solves for a vector", near(vp::mul(full, VectorXd(b.solve(v))), v, s), vp::str(VectorXd(b.solve(v))));
}
VP_TEST(blocks) {
  int n = r.range(2, 10), a = r.range(1, n - 1), c = r.range(a, n);
  MatrixXd X = gen(r, n);
  vp::describe("matrix " + vp::str(X) + " split at " + std::to_string(a) + " and " + std::to_string(c));
  const MatrixXd A = X.topLeftCorner(a, a), B = X.block(0, a, a, c - a), C = X.block(a, a, c - a, c - a);
  const Eigen::SerializableLDLT ldlt(A);
  if (c > a) {
    const auto b = build_block_symmetric(ldlt, B, C);
    block(r, "block", b, X.topLeftCorner(c, c));
    const MatrixXd S = C - vp::mul(vp::T(B), vp::mul(vp::inv(A), B));
    block(r, "block from a Schur complement", build_block_symmetric(ldlt, B, Eigen::SerializableLDLT(S)), X.topLeftCorner(c, c));
    VP_NAMED("block equals itself", b == build_block_symmetric(ldlt, B, C), "");
    MatrixXd C2 = C; C2(0, 0) *= 1.25; MatrixXd B2 = B; B2(0, 0) += 0.25; MatrixXd A2 = A; A2(0, 0) *= 1.25;
    VP_NAMED("block differs", !(b == build_block_symmetric(ldlt, B, C2)) && !(b == build_block_symmetric(ldlt, B2, C)) && !(b == build_block_symmetric(Eigen::SerializableLDLT(A2), B, C)), "");
    if (n > c) block(r, "nested block", build_block_symmetric(b, MatrixXd(X.block(0, c, c, n - c)), MatrixXd(X.block(c, c, n - c, n - c))), X);
  }
}
VP_MAIN
