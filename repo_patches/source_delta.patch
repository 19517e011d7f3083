From 5861fd33b371bdb702b09cbaba38d630559da931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 01/16] fix: normalise the Gaussian prior log densities
 correctly

---
 include/albatross/src/core/priors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 978aa34..79e40df 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -134,7 +134,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation);
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation);
   }
 
   double mu_;
@@ -162,7 +162,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
   }
 
   double mu_;
-- 
2.43.0


From 1bb5c1721ab57f051b8757f2a216f92683792fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 02/16] fix: LogNormalPrior log density is missing the factor
 of one half

---
 include/albatross/src/core/priors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 79e40df..f8077c4 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -185,7 +185,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (log(x) - mu_) / sigma_;
-    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - deviation * deviation;
+    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - 0.5 * deviation * deviation;
   }
 
   double mu_;
-- 
2.43.0


From 6dddf7763609cb66d4b6f3fa4ed83e8e37883e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 03/16] fix: safe_cast_to_size_t rejects negative values
 instead of invoking UB

---
 include/albatross/src/utils/vector_utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/utils/vector_utils.hpp b/include/albatross/src/utils/vector_utils.hpp
index 25fe739..dd0e342 100644
--- a/include/albatross/src/utils/vector_utils.hpp
+++ b/include/albatross/src/utils/vector_utils.hpp
@@ -17,6 +17,7 @@ namespace albatross {
 
 inline std::size_t safe_cast_to_size_t(double x) {
   ALBATROSS_ASSERT(
+      x >= 0. &&
       x < static_cast<double>(std::numeric_limits<std::size_t>::max()));
   return static_cast<std::size_t>(x);
 }
-- 
2.43.0


From d6826c32858aab26890445cd9678eaaa32e0e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 04/16] fix: linspace of zero points returns an empty vector
 instead of aborting

---
 include/albatross/src/utils/vector_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/utils/vector_utils.hpp b/include/albatross/src/utils/vector_utils.hpp
index dd0e342..2958a7f 100644
--- a/include/albatross/src/utils/vector_utils.hpp
+++ b/include/albatross/src/utils/vector_utils.hpp
@@ -23,6 +23,9 @@ inline std::size_t safe_cast_to_size_t(double x) {
 }
 
 inline std::vector<double> linspace(double a, double b, std::size_t n) {
+  if (n == 0) {
+    return std::vector<double>();
+  }
   double step = (b - a) / cast::to_double(n - 1);
   std::vector<double> xs(n);
   double val = a;
-- 
2.43.0


From c44e8a6fe135b4799368ad72e5318461f1de14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 05/16] fix: maximum_spanning_tree must not include a self loop
 of its first vertex

The vertex the search starts from was not recorded as part of the tree before
its adjacent edges were queued, so a self loop on it could be chosen as an edge
of the tree.
---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index d074abd..49870a5 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -132,6 +132,10 @@ Graph<VertexType> maximum_spanning_tree(const Graph<VertexType> &graph) {
   const Edge<VertexType> first_edge =
       *std::max_element(graph.edges.begin(), graph.edges.end());
 
+  // The starting vertex is already part of the tree, without this an edge
+  // from it to itself would be considered as leading to a new vertex.
+  output.vertices.insert(first_edge.a);
+
   for (const auto &edge : adjacency.at(first_edge.a)) {
     if (!contains_vertex(output, edge.b)) {
       queue.push(edge);
-- 
2.43.0


From b0b49c7d45b3486a2c51b7a6fc188d27878e4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 06/16] fix: reject zstd frames which declare more content than
 they can hold

---
 include/albatross/src/utils/compress.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/compress.hpp b/include/albatross/src/utils/compress.hpp
index cb6cf4b..b21e0ab 100644
--- a/include/albatross/src/utils/compress.hpp
+++ b/include/albatross/src/utils/compress.hpp
@@ -81,8 +81,24 @@ inline void assert_on_error(DecompressResult result) {
 }
 
 inline auto get_decompressed_string_size(const std::string &input) {
-  return ZSTD_getFrameContentSize(static_cast<const void *>(input.data()),
-                                  input.size());
+  const auto declared_size = ZSTD_getFrameContentSize(
+      static_cast<const void *>(input.data()), input.size());
+
+  // The declared size comes from the (untrusted) frame header.  A zstd
+  // block occupies at least three bytes and holds at most 128 KiB, so
+  // a frame which claims to hold more than its blocks could is not
+  // valid; rejecting it here avoids allocating whatever it asks for.
+  constexpr unsigned long long kMinBlockBytes = 3;
+  constexpr unsigned long long kMaxBlockContentBytes = 128 * 1024;
+  const unsigned long long max_content_size =
+      (input.size() / kMinBlockBytes + 1) * kMaxBlockContentBytes;
+  if (ZSTD_CONTENTSIZE_UNKNOWN != declared_size &&
+      ZSTD_CONTENTSIZE_ERROR != declared_size &&
+      declared_size > max_content_size) {
+    return ZSTD_CONTENTSIZE_ERROR;
+  }
+
+  return declared_size;
 }
 
 inline auto check_decompressed_size(unsigned long long decompressed_size) {
-- 
2.43.0


From 4559a6f559c9af9b442013759e11b4e3080c4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 07/16] fix: wait for every task before an exception leaves the
 parallel apply

---
 include/albatross/src/utils/async_utils.hpp | 23 +++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/albatross/src/utils/async_utils.hpp b/include/albatross/src/utils/async_utils.hpp
index 3239325..eb59f65 100644
--- a/include/albatross/src/utils/async_utils.hpp
+++ b/include/albatross/src/utils/async_utils.hpp
@@ -21,6 +21,23 @@ inline bool should_serial_apply(ThreadPool *pool) {
   return (nullptr == pool) || (pool->thread_count() <= 1);
 }
 
+// Block until every task has finished (whether or not it failed).  Tasks
+// typically refer to objects owned by the caller, so none may still be
+// running by the time an exception thrown by one of them is propagated.
+template <typename T>
+inline void wait_for_all(const std::vector<std::future<T>> &futures) {
+  for (const auto &f : futures) {
+    f.wait();
+  }
+}
+
+template <typename KeyType, typename T>
+inline void wait_for_all(const Grouped<KeyType, std::future<T>> &futures) {
+  for (const auto &f : futures) {
+    f.second.wait();
+  }
+}
+
 } // namespace detail
 
 template <typename ValueType, typename ApplyFunction,
@@ -41,6 +58,7 @@ inline void apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -64,6 +82,7 @@ inline auto apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
     futures.emplace_back(pool->enqueue(func, x));
   }
 
+  detail::wait_for_all(futures);
   std::vector<ApplyType> output;
   for (auto &f : futures) {
     output.emplace_back(f.get());
@@ -90,6 +109,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -115,6 +135,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
@@ -142,6 +163,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.first, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -168,6 +190,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.first, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
-- 
2.43.0


From 9ca4a21c6b2e4637e71acac4a57bc4b11e18eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 08/16] fix: Matern length scale solver oscillated between its
 bounds

newton_solve never narrowed its bounds, so for some ratios of increase to
prior sigma the steps overshot from one bound to the other until the
iterations ran out and a length scale far from the solution was returned.
---
 include/albatross/src/covariance_functions/radial.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index a129b3e..2a6b053 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -317,6 +317,15 @@ inline double newton_solve(double guess, double target, Func func, Grad grad,
       break;
     }
 
+    // The function is monotone, so the solution is on the side of the guess
+    // which the newton step points to. Without tightening the bounds a step
+    // can keep overshooting from one to the other until iterations run out.
+    if (delta > 0.) {
+      upper_bound = std::min(upper_bound, guess);
+    } else {
+      lower_bound = std::max(lower_bound, guess);
+    }
+
     if (guess - delta <= lower_bound) {
       guess = 0.5 * (guess + lower_bound);
     } else if (guess - delta >= upper_bound) {
-- 
2.43.0


From d2e7fb63af4767156169d0b061d321e1d1a07fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 09/16] fix: updating a Gaussian process was ambiguous between
 overloads and did not compile with Eigen 3.4

---
 include/albatross/src/models/gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index c10da0d..2867a9e 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -393,7 +393,7 @@ public:
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
     pred.covariance += targets.covariance;
-    const auto S_ldlt = pred.covariance.ldlt();
+    const Eigen::SerializableLDLT S_ldlt(pred.covariance.ldlt());
 
     const Eigen::MatrixXd cross =
         covariance_function_(fit_.train_features, features);
-- 
2.43.0


From d363b612d6ccfe44a84a22f4f97bde0c97d3d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 10/16] fix: features which already are measurements were
 wrapped twice, dropping measurement-only noise

---
 include/albatross/src/core/fit_model.hpp             |  6 ++++++
 .../src/covariance_functions/measurement.hpp         | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/albatross/src/core/fit_model.hpp b/include/albatross/src/core/fit_model.hpp
index c0da05c..770d437 100644
--- a/include/albatross/src/core/fit_model.hpp
+++ b/include/albatross/src/core/fit_model.hpp
@@ -61,6 +61,12 @@ public:
     return predict(measurements);
   }
 
+  template <typename PredictFeatureType>
+  auto predict_with_measurement_noise(
+      const std::vector<Measurement<PredictFeatureType>> &features) const {
+    return predict(features);
+  }
+
   template <
       typename FeatureType,
       typename std::enable_if<
diff --git a/include/albatross/src/covariance_functions/measurement.hpp b/include/albatross/src/covariance_functions/measurement.hpp
index b0647c7..d6a8c01 100644
--- a/include/albatross/src/covariance_functions/measurement.hpp
+++ b/include/albatross/src/covariance_functions/measurement.hpp
@@ -39,6 +39,12 @@ Measurement<FeatureType> as_measurement(const FeatureType &f) {
   return Measurement<FeatureType>(f);
 }
 
+// A measurement already is one.
+template <typename FeatureType>
+Measurement<FeatureType> as_measurement(const Measurement<FeatureType> &f) {
+  return f;
+}
+
 /*
  * Takes a vector of features and turns it into a vector of
  * measurements of those features.
@@ -52,6 +58,12 @@ auto as_measurements(const std::vector<FeatureType> &features) {
   return measurement_features;
 }
 
+template <typename FeatureType>
+std::vector<Measurement<FeatureType>>
+as_measurements(const std::vector<Measurement<FeatureType>> &features) {
+  return features;
+}
+
 /*
  * This takes a vector of variants of features and turns it into
  * a vector of variants of MEASUREMENTS of features.
-- 
2.43.0


From 18fff2e01335eb4ca3fae5f719e4b97cb84aa31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 11/16] fix: updating a Gaussian process ignored the
 measurement-only covariance of the new observations

---
 include/albatross/src/models/gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index 2867a9e..839954f 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -388,7 +388,9 @@ public:
                             const MarginalDistribution &targets) const {
     const auto new_features = concatenate(fit_.train_features, features);
 
-    auto pred = this->_predict_impl(features, fit_,
+    // As in _fit_impl, the targets are measurements of the features.
+    const auto measurement_features = as_measurements(features);
+    auto pred = this->_predict_impl(measurement_features, fit_,
                                     PredictTypeIdentity<JointDistribution>());
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
@@ -396,7 +398,7 @@ public:
     const Eigen::SerializableLDLT S_ldlt(pred.covariance.ldlt());
 
     const Eigen::MatrixXd cross =
-        covariance_function_(fit_.train_features, features);
+        covariance_function_(fit_.train_features, measurement_features);
 
     const auto new_covariance =
         build_block_symmetric(fit_.train_covariance, cross, S_ldlt);
-- 
2.43.0


From d9d9b2b8cc824651857e315a380558c68fe4eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:40 +0000
Subject: [PATCH 12/16] fix: solving a block diagonal LDLT for a sparse right
 hand side did not compile

---
 include/albatross/src/linalg/block_diagonal.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_diagonal.hpp b/include/albatross/src/linalg/block_diagonal.hpp
index 2932187..1c7ad3f 100644
--- a/include/albatross/src/linalg/block_diagonal.hpp
+++ b/include/albatross/src/linalg/block_diagonal.hpp
@@ -130,7 +130,8 @@ BlockDiagonalLDLT::solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> rhs_chunk =
+        rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.solve(rhs_chunk);
     i += b.rows();
   }
@@ -155,7 +156,8 @@ BlockDiagonalLDLT::sqrt_solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> rhs_chunk =
+        rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.sqrt_solve(rhs_chunk);
     i += b.rows();
   }
-- 
2.43.0


From 5598e6a62f079cc3b73554665dc509a774a033d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:40 +0000
Subject: [PATCH 13/16] fix: differential entropy multiplied the log
 determinant by the dimension

---
 include/albatross/src/evaluation/differential_entropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/differential_entropy.hpp b/include/albatross/src/evaluation/differential_entropy.hpp
index 2f184c8..d393c7e 100644
--- a/include/albatross/src/evaluation/differential_entropy.hpp
+++ b/include/albatross/src/evaluation/differential_entropy.hpp
@@ -38,7 +38,7 @@ inline double
 differential_entropy(const Eigen::LDLT<Eigen::MatrixXd> &cov_ldlt) {
   double k = cast::to_double(cov_ldlt.rows());
   double log_det = log_determinant_of_symmetric(cov_ldlt);
-  return 0.5 * (k * (1 + log(2 * M_PI) + log_det));
+  return 0.5 * (k * (1 + log(2 * M_PI)) + log_det);
 }
 
 inline double differential_entropy(const Eigen::MatrixXd &cov) {
-- 
2.43.0


From a21a077bbd587fb43cafbc3666115cae893dbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:40 +0000
Subject: [PATCH 14/16] fix: the two terms of the energy score weighted the
 dimensions differently

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b2a7437..ad3aeb5 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -248,10 +248,11 @@ inline double pairwise_errors_paired(const Eigen::MatrixXd &samples_a,
                    "Sample matrices must be the same size!");
   ALBATROSS_ASSERT(samples_a.cols() == samples_b.cols() &&
                    "Sample matrices must be the same size!");
-  return ((samples_a - samples_b).array().colwise() * weights.array())
-      .matrix()
-      .colwise()
-      .norm()
+  return (((samples_a - samples_b).array().square().colwise() *
+           weights.array())
+              .colwise()
+              .sum())
+      .sqrt()
       .mean();
 }
 
-- 
2.43.0


From 961d0ca5e53ec1ef2eec354751499a77326730dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:40 +0000
Subject: [PATCH 15/16] fix: multivariate normal draws applied the LDLT
 permutation in the wrong direction

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index ad3aeb5..362ccf7 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -206,7 +206,7 @@ Eigen::MatrixXd draw_mvn(const Eigen::LDLT<Eigen::MatrixXd> &decomp,
   ALBATROSS_ASSERT((decomp.vectorD().array() > 0.).all() &&
                    "Please pass a positive definite covariance!");
   std::normal_distribution<double> standard_normal{0.0, 1.0};
-  return (decomp.transpositionsP() *
+  return (decomp.transpositionsP().transpose() *
           (decomp.matrixL() *
            (decomp.vectorD().array().sqrt().matrix().asDiagonal() *
             Eigen::MatrixXd::NullaryExpr(
-- 
2.43.0


From 60009fb735a37bce8e277d6c33380a4949d19660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:11 +0000
Subject: [PATCH 16/16] fix: the variogram score combined columns with rows,
 reading the wrong covariances with Eigen 3.4

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 362ccf7..a616aa5 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -491,7 +491,7 @@ inline double variogram_score(
     Eigen::VectorXd sigma =
         (prediction.get_diagonal(row) +
          prediction.covariance.diagonal().tail(rest).array() -
-         2. * prediction.covariance.row(row).tail(rest).array())
+         2. * prediction.covariance.row(row).tail(rest).transpose().array())
             .sqrt();
     Eigen::VectorXd expectation =
         mean_err.binaryExpr(sigma, [order](double mean, double std) {
@@ -500,8 +500,8 @@ inline double variogram_score(
     Eigen::VectorXd truth_err =
         (truth(row) - truth.tail(rest).array()).abs().pow(p);
     Eigen::VectorXd diff = truth_err - expectation;
-    sum += (weight_matrix.row(row).tail(rest).array() * diff.array() *
-            diff.array())
+    sum += (weight_matrix.row(row).tail(rest).transpose().array() *
+            diff.array() * diff.array())
                .sum();
   }
 
-- 
2.43.0

