From 52b4524127e76e4ab9ae0a239442f9df699d56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 01/51] fix: KMeans centroid update assigns a row to a row

---
 src/methods/cluster/kmeans.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index b15723f..fe02c1b 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -154,7 +154,7 @@ protected:
                 auto diff = mean_c - centroids_.row(c.first);
                 
                 eps += static_cast<double>(diff.norm());
-                centroids_.row(c.first) = mean_c.transpose();
+                centroids_.row(c.first) = mean_c;
             }
             // convergen condition
             if (eps < tol_) {
-- 
2.43.0


From b9212011b01d84ebf17fe4332d480b95ac4941da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 02/51] fix: randomized_svd uses the thin SVD of the projected
 matrix

---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 22a4351..a9ede74 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -193,7 +193,7 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
     // compute the SVD on the thin matrix: (k + p) wide
     MatType Uhat, Vt;
     VecType s;
-    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, true);
+    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, false);
     Vt = Vt.transpose().eval();
     B.resize(0, 0);
 
-- 
2.43.0


From 64d2e2dfabef7e235376dd981b197bd33fdfb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 03/51] fix: lu with permute_l multiplies L by the inverse row
 permutation

---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index a9ede74..663778e 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -40,7 +40,7 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
     // MatType Q = lu_decomposition.permutationQ();
     MatType Q;
     if (permute_l) {
-        Q = (P * L);
+        Q = (lu_decomposition.permutationP().inverse() * L);
     }
     else {
         Q = P;
-- 
2.43.0


From a46d0ad4bba15ce6fdc6c3294393caf65f40dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 04/51] fix: argsort index range ends at n - 1

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 735fe50..88b4b36 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -218,11 +218,11 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
 
     if (axis == 1) {
         idxvec.resize(1, ncols);
-        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols).transpose();
+        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols - 1).transpose();
     }
     else if (axis == 0) {
         idxvec.resize(nrows, 1);
-        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows);
+        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows - 1);
     }
     else {
         std::ostringstream err_msg;
-- 
2.43.0


From 3ed14b0b641ce6e1ca01d78fd07e79b48b88c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 05/51] fix: naive Bayes column selection ends at the last
 column

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp    | 2 +-
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 75471b1..a99fccf 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -79,7 +79,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             mean.col(idx) = math::mean<MatType>(partial_X_y.leftCols(num_features), 0).transpose();
diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 818de5c..5001db7 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -44,7 +44,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
-- 
2.43.0


From fba34a7f12c76894426c6dfc48c2a9e2ceded393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 06/51] fix: GaussianNB adds each class's own log prior

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index a99fccf..2039dc7 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -50,7 +50,7 @@ protected:
             MatType X_centered_reduced = X_centered.array().rowwise() / var_.row(i).array();
             VecType ll = sum_log_var - X_centered_reduced.array().rowwise().sum() * 0.5;
 
-            jll.col(i) = ll.array() + lp.array();
+            jll.col(i) = ll.array() + lp.col(i).array();
         }
 
         return jll;
-- 
2.43.0


From b8a283599c365c4613c45cf0e98cbaab6a9e70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 07/51] fix: MultinomialNB stores per-feature counts as a
 column

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 5001db7..e4f1859 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -47,7 +47,7 @@ protected:
             IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
-            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
+            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
             class_count.row(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_));
 
             new_i++;
-- 
2.43.0


From abe55752643db6cb129010bbd23fec1061ee80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 08/51] fix: naive Bayes forgets the labels of the previous fit

---
 src/methods/naive_bayes/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index a632017..0932b5f 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -35,6 +35,7 @@ protected:
     */
     virtual void compute_prior_prob(const VecType& y) {
         std::size_t num_samples = y.rows();
+        label_map_.clear();
         for (std::size_t i = 0; i < num_samples; i++) {
             label_map_[y[i]]++;
         }
-- 
2.43.0


From 4e96154a0ea376416a2e9ba43a7d756d5b4b5564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 09/51] fix: DecisionTreeClassifier forgets the labels of the
 previous fit

---
 src/methods/tree/decision_tree_classifier.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 07790b6..a4b08c7 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -263,6 +263,7 @@ public:
         const VecType& y) {
         
         num_classes_ = 0;
+        label_count_.clear();
         std::size_t num_samples = X.rows();
         for (std::size_t i = 0; i < num_samples; ++i) {
             label_count_[y(i)]++;
-- 
2.43.0


From 5a9c15b8ec5170350f6a336652df855c70f04181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 10/51] fix: decision trees skip splits that leave one side
 empty

---
 src/methods/tree/base.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index 33a9266..a671398 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -62,6 +62,9 @@ protected:
             for (auto& threshold : feature_values) {
                 std::vector<std::size_t> left_index, right_index;
                 std::tie(left_index, right_index) = data::divide_on_feature<MatType>(X, feature_index, threshold);
+                if (left_index.empty() || right_index.empty()) {
+                    continue;
+                }
 
                 VecType left_y, right_y;
                 left_y = y(left_index);
-- 
2.43.0


From a506873fba095108a69f1c049cf1f59e591829fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 11/51] fix: lasso optimises over the design matrix with its
 intercept column

---
 src/methods/linear_model/lasso_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 5a4e6dc..bd0e891 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -53,7 +53,7 @@ protected:
                 lambda_, 
                 shuffle_, 
                 verbose_);
-        scd.optimize(X, y);
+        scd.optimize(X_new, y_new);
         this->w_ = scd.get_coef();
     };
 
-- 
2.43.0


From 342e3797a97e6ad25483f364a1420072bc441d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 12/51] fix: lasso header has its own include guard

---
 src/methods/linear_model/lasso_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index bd0e891..f991721 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -1,5 +1,5 @@
-#ifndef METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
-#define METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
+#ifndef METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
+#define METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
 #include "../../prereqs.hpp"
 #include "../../core.hpp"
 #include "base.hpp"
@@ -96,4 +96,4 @@ public:
 } // namespace openml
 } // namespace regression
 
-#endif /*METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP*/
+#endif /*METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP*/
-- 
2.43.0


From b495bee0172f197c745ad6d325dff64abe4d45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 13/51] fix: perceptron optimises over the design matrix with
 its intercept column

---
 src/methods/linear_model/perceptron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index d83adcb..56f6941 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -76,7 +76,7 @@ protected:
                 tol_, 
                 shuffle_, 
                 verbose_);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();
     };
 
-- 
2.43.0


From 2f13a7eff001d4cad9e3d4087f486a7c0bd748c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 14/51] fix: softmax regression trains and uses its intercept

---
 src/methods/linear_model/softmax_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a2f2a8e..f1a2096 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -74,7 +74,7 @@ protected:
                 shuffle_, 
                 verbose_, 
                 true);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();    
     };
 
@@ -87,7 +87,7 @@ protected:
             auto xw = X * this->w_.topRows(num_features);
             // auto b = this->w_.bottomRows(1).colwise().replicate(num_samples);
             auto b = this->w_.bottomRows(1);
-            boundary = xw;
+            boundary = xw + b.colwise().replicate(num_samples);
         }
         else {
             boundary = X * this->w_;
-- 
2.43.0


From a059d705adda03af731bfd39afd8c006068e3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 15/51] fix: LogisticRegression reports class 1 where its
 probability exceeds 0.5

---
 src/methods/linear_model/logistic_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 0ff23c2..171eda8 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -164,7 +164,7 @@ protected:
         y_pred = math::sigmoid(decision_boundary);
 
         MatType prob(num_samples, 2);
-        prob = common::hstack<MatType>(y_pred, ones - y_pred);
+        prob = common::hstack<MatType>(ones - y_pred, y_pred);
 
         return prob;
     }
@@ -274,10 +274,10 @@ public:
         y_pred = math::sigmoid(decision_boundary);
         for(auto& value: y_pred) {
             if (value > 0.5) {
-                value = 0;
+                value = 1;
             }
             else {
-                value = 1;
+                value = 0;
             }
         }
         return y_pred;
-- 
2.43.0


From 12a01ed69031c2b70cad87723eaac9bd0dbc1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 16/51] fix: HingeLoss gradient starts from zero

---
 src/core/loss/hinge_loss.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/loss/hinge_loss.hpp b/src/core/loss/hinge_loss.hpp
index aea213a..649a069 100644
--- a/src/core/loss/hinge_loss.hpp
+++ b/src/core/loss/hinge_loss.hpp
@@ -63,6 +63,7 @@ public:
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
         VecType grad(num_features);
+        grad.setZero();
 
         VecType X_w(num_samples);
         X_w = X * W;
-- 
2.43.0


From 7a9f81333c4e89aa2f94d155906a6178e89acea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 17/51] fix: line searches never accept a step whose objective
 is not a number

---
 src/core/optimizer/lbfgs/search_policies/backtracking.hpp | 2 +-
 src/core/optimizer/lbfgs/search_policies/bracketing.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/lbfgs/search_policies/backtracking.hpp b/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
index 1ea2c97..36ec22c 100644
--- a/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
@@ -69,7 +69,7 @@ public:
 
             ++count;
 
-            if (fx > fx_init + step * dg_test) {
+            if (!(fx <= fx_init + step * dg_test)) {
                 width = dec_factor;
             }
             else {
diff --git a/src/core/optimizer/lbfgs/search_policies/bracketing.hpp b/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
index 879d621..e5cc67a 100644
--- a/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
@@ -70,7 +70,7 @@ public:
 
             ++count;
 
-            if (fx > fx_init + step * dg_test) {
+            if (!(fx <= fx_init + step * dg_test)) {
                 step_hi = step;
             }
             else {
-- 
2.43.0


From f1952c50f778b80225f96ae5ad30c36876b08980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 18/51] fix: LBFGS returns its start point when it is already
 stationary

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 5d8a217..0ac5cd6 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -114,6 +114,7 @@ public:
         }
         if (gnorm / xnorm <= this->tol_) {
             std::cout << "ERROR: The initial variables already minimize the objective function" << std::endl;
+            this->opt_x_ = x;
             return ;
         }
 
-- 
2.43.0


From f4af952e6b449439b35ecccc2509df8dfafe16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 19/51] fix: LBFGS skips the delta test when past is zero

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 0ac5cd6..e5f7550 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -162,7 +162,7 @@ public:
             // Convergence test -- objective function value
             // The criterion is given by the following formula:
             // |f(past_x) - f(x)| / max(1, |f(x)|) < delta.
-            if (past_ <= k) {
+            if (past_ > 0 && past_ <= k) {
                 rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
                 if (rate < delta_) {
                     std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
-- 
2.43.0


From e736df4a22a9f3d86507265e3e0dd1e6896c6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 20/51] fix: optimizer and line search bases have virtual
 destructors

---
 src/core/optimizer/base.hpp                       | 2 +-
 src/core/optimizer/lbfgs/search_policies/base.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/base.hpp b/src/core/optimizer/base.hpp
index 72456d6..5170d4b 100644
--- a/src/core/optimizer/base.hpp
+++ b/src/core/optimizer/base.hpp
@@ -88,7 +88,7 @@ public:
             shuffle_(shuffle),
             verbose_(verbose) {};
     
-    ~BaseOptimizer() {};
+    virtual ~BaseOptimizer() {};
 
     virtual void optimize(const MatType& X, 
         const VecType& y) = 0;
diff --git a/src/core/optimizer/lbfgs/search_policies/base.hpp b/src/core/optimizer/lbfgs/search_policies/base.hpp
index 3299e20..51ed83f 100644
--- a/src/core/optimizer/lbfgs/search_policies/base.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/base.hpp
@@ -31,7 +31,7 @@ public:
             loss_func_(loss_func), 
             linesearch_params_(linesearch_params) {};
 
-    ~BaseLineSearch() {};
+    virtual ~BaseLineSearch() {};
 
     virtual int search(VecType& x, 
         double& fx, 
-- 
2.43.0


From 5bb5083e13faa8cc18189988b108ffccd7a4caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 21/51] fix: KDTree root bounding boxes are cut along the
 partition axis

---
 src/core/tree/kd_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 0a66e0e..d4975bd 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -118,8 +118,8 @@ protected:
         // define left_hyper_rect and right_hyper_rect
         MatType left_hyper_rect = hyper_rect;
         MatType right_hyper_rect = hyper_rect;
-        left_hyper_rect(1, 0) = partition_val;
-        right_hyper_rect(0, 0) = partition_val;
+        left_hyper_rect(1, partition_axis) = partition_val;
+        right_hyper_rect(0, partition_axis) = partition_val;
 
         KDTreeNode node; //std::make_shared<>();
         node.left_hyper_rect = std::make_shared<MatType>(left_hyper_rect);
-- 
2.43.0


From 506c49dc46af98db12fae38c9f3b6308fb1f7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 22/51] fix: KDTree visits boxes that touch the search radius

---
 src/core/tree/kd_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index d4975bd..6dfc43d 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -248,7 +248,7 @@ protected:
         }
 
         double dist = metric::minkowski_distance<RowVecType>(c, centroid, ord_);
-        return (dist < radius) ? true : false;
+        return (dist <= radius) ? true : false;
     }
 
     const std::vector<NNType> compute_distance(const RowVecType& data, 
-- 
2.43.0


From a66300207f544bdc34fcd552107e5de5816d18b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 23/51] fix: destroying one KDTree copy leaves the others
 intact

---
 src/core/tree/kd_tree.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 6dfc43d..c1b403c 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -394,11 +394,7 @@ public:
             build_tree();
         };
 
-    ~KDTree() {
-        if (tree_ != nullptr) {
-            tree_->clear();
-        }
-    };
+    ~KDTree() {};
 
     const std::pair<MatType, IdxMatType> query(
         const MatType& data, 
-- 
2.43.0


From 28bc46961518da4ed9e098abdc19924ac2802812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 24/51] fix: GaussianMixture computes one log determinant per
 component for tied covariances

---
 src/methods/mixture/gaussian_mixture.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 38af027..bd62dd5 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -267,6 +267,9 @@ private:
         std::size_t num_components = means.rows();
 
         VecType log_det = compute_log_det_cholesky(precisions_cholesky_);
+        if (covariance_type_ == "tied") {
+            log_det = VecType::Constant(num_components, log_det(0)).eval();
+        }
 
         MatType log_prob(num_samples, num_components);
 
-- 
2.43.0


From ee613060b917c0c1330a2031350741ce714bdbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 25/51] fix: GaussianMixture refit replaces its precision
 matrices

---
 src/methods/mixture/gaussian_mixture.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index bd62dd5..85a72d1 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -507,6 +507,7 @@ private:
         means_ = best_means;
         weights_ = best_weights;
 
+        precisions_.clear();
         for (int i = 0; i < precisions_cholesky_.size(); ++i) {
             MatType prec_chol = precisions_cholesky_[i];
             MatType prec(num_features, num_features);
-- 
2.43.0


From c028af1670ae1ec2efbc93007de3a48ef6f9ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 26/51] fix: sortrows comparators order equal rows

---
 src/core/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 88b4b36..606b7d7 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -738,6 +738,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] < v2[index];
             }
         }
+        return false;
     };
     const auto desc = [](const std::vector<DataType>& v1, const std::vector<DataType>& v2) {
         std::size_t index = 0;
@@ -749,6 +750,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] > v2[index];
             }
         }
+        return false;
     };
 
     if (!reverse) {
-- 
2.43.0


From 59e27adfad611014a1aa6019b0182c32d7744283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 27/51] fix: loadtxt refuses fields that are not numbers

---
 src/core/data/load.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 372cf24..fd746d3 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -28,7 +28,11 @@ void loadtxt(const std::string &fp,
         std::stringstream str_stream(line);
         std::vector<DataType> row;
 
-        for (DataType elem; str_stream >> elem; ) {
+        while (!(str_stream >> std::ws).eof()) {
+            DataType elem;
+            if (!(str_stream >> elem)) {
+                throw std::runtime_error("Input file contains a field that is not a number.");
+            }
             row.push_back(elem);
         }
         stdmat.push_back(row);
@@ -58,7 +62,11 @@ void loadtxt(const std::string &fp,
         std::stringstream str_stream(line);
         std::vector<DataType> row;
 
-        for (DataType elem; str_stream >> elem; ) {
+        while (!(str_stream >> std::ws).eof()) {
+            DataType elem;
+            if (!(str_stream >> elem)) {
+                throw std::runtime_error("Input file contains a field that is not a number.");
+            }
             row.push_back(elem);
         }
         X.push_back(row);
@@ -85,7 +93,11 @@ void loadtxt(const std::string &fp,
         std::stringstream str_stream(line);
         std::vector<DataType> row;
 
-        for (DataType elem; str_stream >> elem; ) {
+        while (!(str_stream >> std::ws).eof()) {
+            DataType elem;
+            if (!(str_stream >> elem)) {
+                throw std::runtime_error("Input file contains a field that is not a number.");
+            }
             row.push_back(elem);
         }
         stdmat.push_back(row);
-- 
2.43.0


From 3d20c973d8e9faf349fa1bc4c0036a763e20f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 28/51] fix: loadtxt reports a read error instead of returning
 the rows before it

---
 src/core/data/load.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index fd746d3..4056a97 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -37,6 +37,9 @@ void loadtxt(const std::string &fp,
         }
         stdmat.push_back(row);
     }
+    if (fin.bad() || !fin.eof()) {
+        throw std::runtime_error("Input file could not be read to its end.");
+    }
 
     // conert std 2D vector into eigen matrix
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
@@ -71,6 +74,9 @@ void loadtxt(const std::string &fp,
         }
         X.push_back(row);
     }
+    if (fin.bad() || !fin.eof()) {
+        throw std::runtime_error("Input file could not be read to its end.");
+    }
 };
 
 
@@ -102,6 +108,9 @@ void loadtxt(const std::string &fp,
         }
         stdmat.push_back(row);
     }
+    if (fin.bad() || !fin.eof()) {
+        throw std::runtime_error("Input file could not be read to its end.");
+    }
 
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
     X.resize(nrows, std::vector<DataType>(ncols - 1));
-- 
2.43.0


From 604e73901438ba2de045f18f63337fb07805c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 29/51] fix: loadtxt refuses empty files and rows of different
 length

---
 src/core/data/load.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 4056a97..a53b108 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -41,10 +41,16 @@ void loadtxt(const std::string &fp,
         throw std::runtime_error("Input file could not be read to its end.");
     }
 
+    if (stdmat.empty() || stdmat[0].empty()) {
+        throw std::runtime_error("Input file contains no data.");
+    }
     // conert std 2D vector into eigen matrix
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
     MatType mat(n_rows, n_cols);
     for (std::size_t i = 0; i < n_rows; i++) {
+        if (stdmat[i].size() != n_cols) {
+            throw std::runtime_error("Input file rows differ in length.");
+        }
         mat.row(i) = VecType::Map(&stdmat[i][0], n_cols);
     }
     X = mat.leftCols(n_cols - 1);
@@ -112,9 +118,15 @@ void loadtxt(const std::string &fp,
         throw std::runtime_error("Input file could not be read to its end.");
     }
 
+    if (stdmat.empty() || stdmat[0].empty()) {
+        throw std::runtime_error("Input file contains no data.");
+    }
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
     X.resize(nrows, std::vector<DataType>(ncols - 1));
     for (std::size_t i = 0; i < nrows; ++i) {
+        if (stdmat[i].size() != ncols) {
+            throw std::runtime_error("Input file rows differ in length.");
+        }
         for (std::size_t j = 0; j < ncols - 1; ++j) {
             X[i][j] = stdmat[i][j];
         }
-- 
2.43.0


From 820612bb53c85a32d8f8c0f140adf9180ea2d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 30/51] fix: loadtxt replaces the previous contents of its
 outputs

---
 src/core/data/load.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index a53b108..202d869 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -62,6 +62,7 @@ template<typename DataType>
 void loadtxt(const std::string &fp, 
     std::vector<std::vector<DataType>>& X) {
     
+    X.clear();
     std::ifstream fin(fp);
     if(!fin) {
         throw std::runtime_error("Input file could not be opened.");
@@ -122,7 +123,8 @@ void loadtxt(const std::string &fp,
         throw std::runtime_error("Input file contains no data.");
     }
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
-    X.resize(nrows, std::vector<DataType>(ncols - 1));
+    X.assign(nrows, std::vector<DataType>(ncols - 1));
+    y.clear();
     for (std::size_t i = 0; i < nrows; ++i) {
         if (stdmat[i].size() != ncols) {
             throw std::runtime_error("Input file rows differ in length.");
-- 
2.43.0


From f62c652399c3186bf6471d752de9154891ed1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 31/51] fix: HashTree frequent itemset lists start empty on
 every call

---
 src/core/tree/hash_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index 87f2b08..a0e19c7 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -111,6 +111,8 @@ public:
         std::vector<std::size_t>& count_list,
         std::vector<std::vector<DataType>>& itemset_list) {
     
+        count_list_.clear();
+        itemset_list_.clear();
         dfs(root_, support);
         count_list = count_list_;
         itemset_list = itemset_list_;
-- 
2.43.0


From ee7ff0b6a2c9c8c84af17d91cf66deafba07abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 32/51] fix: HashTree leaf split that fails midway leaves the
 counts unchanged

---
 src/core/tree/hash_tree.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index a0e19c7..416597b 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -60,13 +60,16 @@ protected:
                 // bucket is a map struct and key is vector
                 // bucket has reached its maximum capacity its intermediate 
                 // node so split and redistribute entries
+                // fill the new children first, a failure leaves this node as it was
+                decltype(node->children) children;
                 for (auto bucket : node->bucket) {
                     key = hash(bucket.first[index]);
-                    if (node->children.find(key) == node->children.end()) {
-                        node->children[key] = std::make_shared<NodeType>();
+                    if (children.find(key) == children.end()) {
+                        children[key] = std::make_shared<NodeType>();
                     }
-                    insert(node->children[key], bucket.first, bucket.second, index + 1);
+                    insert(children[key], bucket.first, bucket.second, index + 1);
                 }
+                node->children.swap(children);
                 node->bucket.clear();
                 node->is_leaf = false;
             }   
-- 
2.43.0


From ae3c8dbc8f6a8f454bcac65ec958a31c25f6a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 33/51] fix: Apriori forgets the itemsets and rules of the
 previous fit

---
 src/methods/rule_model/apriori.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 1bba590..03e9188 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -216,6 +216,8 @@ public:
     };
 
     void fit_transform(const std::vector<std::vector<DataType>>& X) {
+        all_frequency_.clear();
+        association_rules_.clear();
         fit_data(X);
         transform_data();        
     }
-- 
2.43.0


From 933662dabb1522d2d24d453aaa92a5bec27c80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 34/51] fix: Apriori stops when a level has no frequent
 itemsets

---
 src/methods/rule_model/apriori.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 03e9188..47b277d 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -162,6 +162,9 @@ protected:
             }
 
             all_frequency_.insert(all_frequency_.end(), curr_frequency.begin(), curr_frequency.end());
+            if (itemsets_list.empty()) {
+                break;
+            }
             prev_frequency = common::sortrows<DataType>(itemsets_list);
 
             ++length;
-- 
2.43.0


From 9884a1dd61a6e7635856130d708ad9e309de8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 35/51] fix: Apriori counts an itemset regardless of the item
 order in a transaction

---
 src/methods/rule_model/apriori.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 47b277d..df9b2af 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -61,7 +61,13 @@ private:
 
 
 protected:
-    void fit_data(const std::vector<std::vector<DataType>>& X) {    
+    void fit_data(const std::vector<std::vector<DataType>>& transactions) {    
+        // items of a transaction are a set, keep them in ascending order
+        std::vector<std::vector<DataType>> X = transactions;
+        for (auto& row : X) {
+            std::sort(row.begin(), row.end());
+            row.erase(std::unique(row.begin(), row.end()), row.end());
+        }
         std::size_t support = static_cast<std::size_t>(X.size() * min_support_);
     
         std::vector<DataType> records_order;
@@ -74,6 +80,8 @@ protected:
             }
         }
 
+        std::sort(records_order.begin(), records_order.end());
+
         preprocessing::TransactionEncoder<std::size_t> transaction_encoder;
         SpMatType sp_mat = transaction_encoder.fit_transform(X);
         std::unordered_map<DataType, std::size_t> all_records;
-- 
2.43.0


From 6fb846f2e73d5e8f1080a9eeb5ccf23dfda0e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 36/51] fix: LBFGS records every objective value its delta test
 compares with

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index e5f7550..f42306e 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -168,6 +168,8 @@ public:
                     std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
                     break;
                 }
+            }
+            if (past_ > 0) {
                 pfx(k % past_) = fx;
             }
             if ((this->max_iter_ != 0) && (this->max_iter_ < k + 1)) {
-- 
2.43.0


From e4b59d0cc27243b10212e96616f08bca38658de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 37/51] fix: LogisticRegression with the lbfgs solver has a
 defined penalty strength

---
 src/methods/linear_model/logistic_regression.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 171eda8..06d1052 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -240,6 +240,7 @@ public:
         bool shuffle = true, 
         bool verbose = true): 
             BaseLinearModel<DataType>(true), 
+            lambda_(0.0), 
             tol_(tol), 
             ftol_(ftol),
             delta_(delta),
-- 
2.43.0


From 16fdbb67889824f7d5462516f6fd0732ef8c6aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 38/51] fix: PCA refit refreshes the covariance and precision
 it reports and scores with

---
 src/methods/decomposition/pca.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 215b923..99d5027 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -67,6 +67,9 @@ protected:
         this->components_ = components.topRows(this->num_components_);
         this->explained_var_ = explained_var.topRows(this->num_components_);
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
+
+        compute_data_covariance();
+        compute_precision_matrix();
     }
 
     /** transform the new data */
-- 
2.43.0


From 0a62b6b99dd5c5634e1fce415cb564ca5d7f28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 39/51] fix: GaussianMixture reports the best restart that
 converged

---
 src/methods/mixture/gaussian_mixture.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 85a72d1..85e303b 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -466,6 +466,7 @@ private:
         for (std::size_t init = 0; init < num_init_; ++init) {
 
             initialize_parameters(X);
+            bool init_converged = false;
             double lower_bound = -ConstType<double>::infinity();
             std::size_t iter;
             for (iter = 0; iter < max_iter_; ++iter) {
@@ -480,14 +481,16 @@ private:
                 double diff = lower_bound - prev_lower_bound;
 
                 if (std::abs(diff) < tol_) {
-                    converged = true;
+                    init_converged = true;
                     break;
                 }
             }
 
-            if ((lower_bound > max_lower_bound) || 
-                (max_lower_bound == -ConstType<double>::infinity())) {
+            // only a run that converged can be reported
+            if (init_converged && ((lower_bound > max_lower_bound) || 
+                (max_lower_bound == -ConstType<double>::infinity()))) {
                 
+                converged = true;
                 max_lower_bound = lower_bound;
                 best_precisions_cholesky = precisions_cholesky_;
                 best_covariances = covariances_;
-- 
2.43.0


From cc9339e234855ae534cafa485c57678a8277e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 40/51] fix: GaussianNB get_mean and get_var return the
 matrices they report

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 2039dc7..251c89d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -119,12 +119,12 @@ public:
     };
 
     /** get the mean attributes */
-    const VecType get_mean() const {
+    const MatType get_mean() const {
         return mean_;
     }
 
     /** get the var attributes */
-    const VecType get_var() const {
+    const MatType get_var() const {
         return var_;
     }
 
-- 
2.43.0


From 8a640312391f6a913a5987c7034f18068879b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 41/51] fix: SoftmaxRegression get_coef returns one column of
 coefficients per class

---
 src/methods/linear_model/softmax_regression.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index f1a2096..5ea11e9 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -140,6 +140,11 @@ public:
     /**deconstructor*/
     ~SoftmaxRegression() {};
 
+    /** get the coefficients, one column per class */
+    const MatType get_coef() const {
+        return this->w_;
+    }
+
     /**
      * Predict class labels for samples in X.
      * 
-- 
2.43.0


From 9a81f7b712dfad0e3f15ff4d8ac24fa6dbb950f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:54 +0000
Subject: [PATCH 42/51] fix: PCA get_covariance and get_precision only read the
 fitted model

---
 src/methods/decomposition/pca.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 99d5027..88ca199 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -168,8 +168,7 @@ public:
      * @return covariance : array of shape (n_features, n_features)
      * Estimated covariance of data. 
     */
-    const MatType get_covariance() {
-        compute_data_covariance();
+    const MatType get_covariance() const {
         return this->covariance_;
     }
 
@@ -178,8 +177,7 @@ public:
      * equals the inverse of the covariance
      * 
     */
-    const MatType get_precision() {
-        compute_precision_matrix();
+    const MatType get_precision() const {
         return this->precision_;
     }
 
-- 
2.43.0


From 8a91db49697f9741b3f89d3539d5da614b592fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 43/51] fix: DecisionTreeRegressor criteria measure the
 decrease in deviation of its leaves

---
 src/methods/tree/decision_tree_regressor.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8e54566..907b5e6 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -87,8 +87,9 @@ protected:
             auto right_var = math::var<MatType>(right_y, -1);
 
             double mse = static_cast<double>(total_var.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value());
+                (static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) +
+                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value())) / 
+                        static_cast<double>(num_samples);
             
             impurity = mse;
         }
@@ -98,17 +99,17 @@ protected:
             auto left_median = math::median<MatType, VecType>(left_y, -1);
             auto right_median = math::median<MatType, VecType>(right_y, -1);
 
-            VecType y_bar = y.array() - total_median.array();
-            VecType left_y_bar = left_y.array() - left_median.array();
-            VecType right_y_bar = right_y.array() - right_median.array();
+            VecType y_bar = (y.array() - total_median.value()).abs();
+            VecType left_y_bar = (left_y.array() - left_median.value()).abs();
+            VecType right_y_bar = (right_y.array() - right_median.value()).abs();
 
             auto y_bar_sum = math::sum<MatType>(y_bar, -1);
             auto left_y_bar_sum = math::sum<MatType>(left_y_bar, -1);
             auto right_y_bar_sum = math::sum<MatType>(right_y_bar, -1);
 
-            double mae = static_cast<double>(y_bar_sum.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_y_bar_sum.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_y_bar_sum.value());
+            double mae = (static_cast<double>(y_bar_sum.value()) - 
+                static_cast<double>(left_y_bar_sum.value()) -
+                    static_cast<double>(right_y_bar_sum.value())) / static_cast<double>(num_samples);
 
             impurity = mae;
         }
-- 
2.43.0


From 27d6ac9bc48dad444c90c0181d4c986f2ab93684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 44/51] fix: decision trees keep a node whole when a side is
 smaller than min_samples_leaf

---
 src/methods/tree/decision_tree_classifier.hpp | 5 +++++
 src/methods/tree/decision_tree_regressor.hpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index a4b08c7..34e9d99 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -197,6 +197,11 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
+        // a node has both children or none
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
+        }
+
         if (left_X.rows() >= min_samples_leaf_) {
             std::shared_ptr<Node> left_child = std::make_shared<Node>();
             cur_node->is_leaf = false;
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 907b5e6..04459b0 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -203,6 +203,11 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
+        // a node has both children or none
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
+        }
+
         if (left_X.rows() >= min_samples_leaf_) {
             std::shared_ptr<Node> left_child = std::make_shared<Node>();
             cur_node->is_leaf = false;
-- 
2.43.0


From b98a20ae3fa17b3cb59ba0cd51328a2b74352159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 45/51] fix: argsort of a std::vector appends its indices

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 606b7d7..9d7f575 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -821,7 +821,7 @@ const std::vector<std::size_t> argsort(const std::vector<DataType>& x, bool reve
     }
     
     for (int i = 0; i < combine.size(); ++i) {
-        indices[i] = combine[i].second;
+        indices.push_back(combine[i].second);
     }
 
     return indices;
-- 
2.43.0


From d86de9361ea69ba203a8d35ad08387ad425ca37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 46/51] fix: slice of a std::vector ends at its end index

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 9d7f575..5d8741c 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -892,7 +892,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t num_rows = end_index - start_index + 1;
     std::vector<DataType> sub_vec;
     sub_vec.reserve(num_rows);
-    sub_vec = std::vector<int>(x.begin() + start_index, x.end() + end_index + 1);
+    sub_vec = std::vector<DataType>(x.begin() + start_index, x.begin() + end_index + 1);
 
     return sub_vec;
 };
-- 
2.43.0


From 83f7a468529554f842af7247334f9c627fe29ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 47/51] fix: is_equal compares vectors of different length

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 5d8741c..45a56ca 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -704,7 +704,7 @@ std::vector<std::vector<DataType>> remove_duplicate_rows(
 */
 template<typename DataType>
 bool is_equal(const std::vector<DataType>& x, const std::vector<DataType>& y) {
-    auto pair = std::mismatch(x.begin(), x.end(), y.begin());
+    auto pair = std::mismatch(x.begin(), x.end(), y.begin(), y.end());
     return (pair.first == x.end() && pair.second == y.end());
 };
 
-- 
2.43.0


From 3ed7cb6bf6d764a62722c6d873124478e06f7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 48/51] fix: softmax of a single sample, so one point can be
 classified

---
 src/core/math/extmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 624b341..0c5cec8 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -234,7 +234,8 @@ MatType row_norms(const MatType& x, bool squared = false) {
 template<typename MatType>
 MatType softmax(const MatType& x, int axis = 0) {
     std::size_t nrows = x.rows(), ncols = x.cols();
-    if (nrows == 1 || ncols == 1) {
+    // a single sample is fine, there only must be several values to normalise
+    if ((axis != 1 && nrows == 1) || (axis != 0 && ncols == 1)) {
         throw std::invalid_argument("Input ndarray should be 2 dimension");
     }
 
-- 
2.43.0


From b6bb35730217da6a8ea13366a4b5f2ca418baf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:13 +0000
Subject: [PATCH 49/51] fix: exact_svd falls back on JacobiSVD when divide and
 conquer loses a rank deficient matrix

Eigen 3.4.0's BDCSVD returns factors that are off by up to 13 percent for about
one rank deficient matrix of 16 or more columns in 3000; randomized_svd, pinv
and PCA inherit them.
---
 src/core/math/linalg.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 663778e..1719151 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -118,6 +118,17 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
+
+        // the divide and conquer step can lose the factors of a rank 
+        // deficient matrix, fall back on JacobiSVD when it did
+        auto error = U.leftCols(s.size()) * s.asDiagonal() 
+            * V.leftCols(s.size()).transpose() - x;
+        if (!(error.norm() <= 1e-10 * x.norm())) {
+            Eigen::JacobiSVD<Eigen::MatrixXd> jacobi_svd(x, options);
+            U = jacobi_svd.matrixU();
+            s = jacobi_svd.singularValues();
+            V = jacobi_svd.matrixV();
+        }
     }
     return std::make_tuple(U, s, V);
 };
-- 
2.43.0


From 02d765339b0b3d3f7696580e4676f4d99041263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:34 +0000
Subject: [PATCH 50/51] fix: PCA transform and score centre with the mean of
 the training data

---
 src/methods/decomposition/pca.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 88ca199..ea77cac 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -28,6 +28,8 @@ private:
 
     std::string solver_;
     double noise_var_;
+    // mean of the training data
+    Eigen::Matrix<DataType, 1, Eigen::Dynamic> mean_;
 
 protected:
     void fit_data(const MatType& X) {
@@ -35,6 +37,7 @@ protected:
 
         MatType centered_X;
         centered_X = math::center<MatType>(X);
+        mean_ = X.colwise().mean();
         
         MatType components;
         VecType explained_var;
@@ -76,7 +79,7 @@ protected:
     const MatType transform_data(const MatType& X) const{
         std::size_t num_samples = X.rows();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_;
 
         MatType transformed_X(num_samples, this->num_components_);
         transformed_X = centered_X * this->components_.transpose();
@@ -150,7 +153,7 @@ public:
         std::size_t num_samples = X.rows();
         
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_;
 
         VecType log_like(num_samples);
         log_like = compute_score_samples(centered_X);
-- 
2.43.0


From 0cc42f439882cd73ebed15f6fa5a7e12c8c1dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:34 +0000
Subject: [PATCH 51/51] fix: loadtxt refuses a negative number for unsigned
 elements

---
 src/core/data/load.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 202d869..94ae9f5 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -30,7 +30,8 @@ void loadtxt(const std::string &fp,
 
         while (!(str_stream >> std::ws).eof()) {
             DataType elem;
-            if (!(str_stream >> elem)) {
+            // extracting a negative number into an unsigned one wraps around
+            if ((std::is_unsigned<DataType>::value && str_stream.peek() == '-') || !(str_stream >> elem)) {
                 throw std::runtime_error("Input file contains a field that is not a number.");
             }
             row.push_back(elem);
@@ -74,7 +75,8 @@ void loadtxt(const std::string &fp,
 
         while (!(str_stream >> std::ws).eof()) {
             DataType elem;
-            if (!(str_stream >> elem)) {
+            // extracting a negative number into an unsigned one wraps around
+            if ((std::is_unsigned<DataType>::value && str_stream.peek() == '-') || !(str_stream >> elem)) {
                 throw std::runtime_error("Input file contains a field that is not a number.");
             }
             row.push_back(elem);
@@ -108,7 +110,8 @@ void loadtxt(const std::string &fp,
 
         while (!(str_stream >> std::ws).eof()) {
             DataType elem;
-            if (!(str_stream >> elem)) {
+            // extracting a negative number into an unsigned one wraps around
+            if ((std::is_unsigned<DataType>::value && str_stream.peek() == '-') || !(str_stream >> elem)) {
                 throw std::runtime_error("Input file contains a field that is not a number.");
             }
             row.push_back(elem);
-- 
2.43.0

