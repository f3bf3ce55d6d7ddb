From 25befc506f1dd33465629a49dc04b39f29721b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 01/22] fix: forward-mode erf must scale its derivative by the
 argument adjoint

---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 1e9aa5a..7c7ecf2 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -134,7 +134,7 @@ FORWARD_UNARY_FUNC(sqrt, tmp, x.get_adjoint() / (2 * tmp),
         auto tmp = std::sqrt(x.get_value());)
 // ad::erf(core::ADForward)
 FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()), 
-        two_over_sqrt_pi * std::exp(-t_sq), 
+        x.get_adjoint() * two_over_sqrt_pi * std::exp(-t_sq), 
         static constexpr double two_over_sqrt_pi =
                 1.1283791670955126;
         auto t_sq = x.get_value() * x.get_value();)
-- 
2.43.0


From e06bace28c49f773dc28fafcd2b66feda3bdfcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 02/22] fix: cauchy loc/scale adjoints applied the seed twice
 for vector arguments

---
 include/fastad_bits/reverse/stat/cauchy.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 2e89726..1027014 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -228,8 +228,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        value_t dx0 = -dx.sum();
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
         
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -297,8 +297,8 @@ public:
 
         auto diff = x - x0;
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        auto dgamma = (-seed) * (dx * diff + 1) / gamma;
+        value_t dx0 = -dx.sum();
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -367,8 +367,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        auto dx0 = (-seed) * dx;
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        auto dx0 = -dx;
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -436,8 +436,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        auto dx0 = (-seed) * dx;
-        auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
+        auto dx0 = -dx;
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-- 
2.43.0


From d20d5cb4cf6c766d62bca9e8a995c1cdc9e3a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 03/22] fix: transpose of a constant did not compile

---
 include/fastad_bits/reverse/core/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/transpose.hpp b/include/fastad_bits/reverse/core/transpose.hpp
index 47d4839..be59583 100644
--- a/include/fastad_bits/reverse/core/transpose.hpp
+++ b/include/fastad_bits/reverse/core/transpose.hpp
@@ -70,7 +70,7 @@ inline auto transpose(const T &x) {
     // optimization for when expression is constant
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
-        using var_t = util::constant_var_t<value_t, ad::scl>;
+        using var_t = util::constant_var_t<value_t, ad::mat>;
         var_t out = expr.feval().transpose();
         return ad::constant(out);
     } else {
-- 
2.43.0


From 05e2045a18ff24143f4662f6504ad73037d27b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 04/22] fix: det and log_det were not reachable through
 <fastad>

---
 include/fastad_bits/reverse/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core.hpp b/include/fastad_bits/reverse/core.hpp
index 7512a06..4421636 100644
--- a/include/fastad_bits/reverse/core.hpp
+++ b/include/fastad_bits/reverse/core.hpp
@@ -2,6 +2,7 @@
 #include "fastad_bits/reverse/core/binary.hpp"
 #include "fastad_bits/reverse/core/bind.hpp"
 #include "fastad_bits/reverse/core/constant.hpp"
+#include "fastad_bits/reverse/core/det.hpp"
 #include "fastad_bits/reverse/core/dot.hpp"
 #include "fastad_bits/reverse/core/eq.hpp"
 #include "fastad_bits/reverse/core/eval.hpp"
@@ -9,6 +10,7 @@
 #include "fastad_bits/reverse/core/for_each.hpp"
 #include "fastad_bits/reverse/core/glue.hpp"
 #include "fastad_bits/reverse/core/if_else.hpp"
+#include "fastad_bits/reverse/core/log_det.hpp"
 #include "fastad_bits/reverse/core/norm.hpp"
 #include "fastad_bits/reverse/core/pow.hpp"
 #include "fastad_bits/reverse/core/prod.hpp"
-- 
2.43.0


From c0c65192e5d0391fcdb4c6e369f4407e49a1119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 05/22] fix: sigmoid, sinh, cosh and tanh did not compile for
 scalar expressions

---
 include/fastad_bits/reverse/core/unary.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 653124c..c15c429 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -274,25 +274,28 @@ UNARY_STRUCT(Sigmoid,
              USING_STD_AD_EIGEN(exp);
              return 1/(1+exp(-x));, 
              static_cast<void>(x); 
+             USING_STD_AD_EIGEN(exp);
              return seed * exp(-x)/((exp(-x)+1)*(exp(-x)+1)););
 
 // sinh
 UNARY_STRUCT(Sinh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::sinh(x);, 
+             using std::sinh; using Eigen::sinh;
+             return sinh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::cosh(x)););
+             using std::cosh; using Eigen::cosh;
+             return seed *(cosh(x)););
 // cosh
 UNARY_STRUCT(Cosh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::cosh(x);, 
+             using std::cosh; using Eigen::cosh;
+             return cosh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::sinh(x)););			 
+             using std::sinh; using Eigen::sinh;
+             return seed *(sinh(x)););			 
 // tanh
 UNARY_STRUCT(Tanh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::tanh(x);, 
-             static_cast<void>(f); 
+             using std::tanh; using Eigen::tanh;
+             return tanh(x);, 
+             static_cast<void>(x); 
              return seed *(1-f*f););
 			 
 // operator- (IMPORTANT TO DECLARE IN core)
-- 
2.43.0


From 315cfe812ad48e3053f2a3fbb14840096ec67af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 06/22] fix: sigmoid derivative was NaN where exp(-x) overflows

---
 include/fastad_bits/reverse/core/unary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index c15c429..cd264d9 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -275,7 +275,7 @@ UNARY_STRUCT(Sigmoid,
              return 1/(1+exp(-x));, 
              static_cast<void>(x); 
              USING_STD_AD_EIGEN(exp);
-             return seed * exp(-x)/((exp(-x)+1)*(exp(-x)+1)););
+             return seed * f / (1+exp(x)););
 
 // sinh
 UNARY_STRUCT(Sinh, 
-- 
2.43.0


From da49829af7c28d568c71bb4662e691029b518cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 07/22] fix: placeholder for prod(...) or a compound assignment
 released a cache still in use

---
 include/fastad_bits/reverse/core/eq.hpp   | 8 ++++----
 include/fastad_bits/reverse/core/prod.hpp | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5503a89..4c2ccb9 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -287,14 +287,14 @@ public:
 
     util::SizePack bind_cache_size() const 
     {
-        return single_bind_cache_size() + 
+        return util::SizePack(cache_.size(), cache_.size()) + 
                 expr_.bind_cache_size(); 
     }
 
+    // The root views the same values as the variable viewer.
+    // cache_ is not part of the root view, so it is not counted here.
     util::SizePack single_bind_cache_size() const
-    {
-        return {cache_.size(), cache_.size()}; 
-    }
+    { return {0,0}; }
 
 private:
     value_adj_view_t cache_;
diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 12621d1..432ede3 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -230,12 +230,15 @@ public:
     util::SizePack bind_cache_size() const 
     { 
         return expr_.bind_cache_size() + 
-                single_bind_cache_size();
+                single_bind_cache_size() +
+                util::SizePack(0, adj_cache_.size());
     }
 
+    // adj_cache_ is not part of the root view, so it is not counted here:
+    // an EqNode may strip and rebind what the root views, but not adj_cache_.
     util::SizePack single_bind_cache_size() const
     { 
-        return {this->size(), expr_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From f62c8b18c78b93ba40eddacd6a14f13ef7b99c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:20 +0000
Subject: [PATCH 08/22] fix: if_else had no value of its own, so it could not
 be an operand

---
 include/fastad_bits/reverse/core/if_else.hpp | 21 ++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index beade43..100c6f1 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -75,10 +75,13 @@ public:
         assert(if_expr.cols() == else_expr.cols());
     }
 
-    const auto& feval()
+    const var_t& feval()
     {
-        return cond_expr_.feval() ? 
-                if_expr_.feval() : else_expr_.feval();
+        if (cond_expr_.feval()) {
+            return this->get() = if_expr_.feval();
+        } else {
+            return this->get() = else_expr_.feval();
+        }
     }
 
     template <class T>
@@ -95,18 +98,24 @@ public:
     {
         begin = cond_expr_.bind_cache(begin);
         begin = if_expr_.bind_cache(begin);
-        return else_expr_.bind_cache(begin);
+        begin = else_expr_.bind_cache(begin);
+        auto adj = begin.adj;
+        begin.adj = nullptr;
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
+        return begin;
     }
 
     util::SizePack bind_cache_size() const 
     { 
-        return cond_expr_.bind_cache_size() +
+        return single_bind_cache_size() +
+                cond_expr_.bind_cache_size() +
                 if_expr_.bind_cache_size() + 
                 else_expr_.bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     cond_t cond_expr_;
-- 
2.43.0


From 085a5003f2600bb80b495f17b7619cba38a15cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:20 +0000
Subject: [PATCH 09/22] fix: wishart with a constant X and a variable V was
 always out of support

---
 include/fastad_bits/reverse/stat/wishart.hpp | 27 ++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5d64c5a..48e8265 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -155,6 +155,10 @@ public:
         if constexpr (util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<v_t>) {
+            update_xv_cache();
+        }
     }
 
     const var_t& feval()
@@ -169,6 +173,10 @@ public:
         if constexpr (!util::is_constant_v<x_t>) {
             update_x_cache();
         }
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<v_t>) {
+            update_xv_cache();
+        }
 
         if (!valid()) {
             return this->get() = util::neg_inf<value_t>;
@@ -204,14 +212,17 @@ private:
     }
 
     void update_x_cache() {
-        if (is_v_pos_def_) {
-            x_llt_.compute(x_.get());
-            is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
-            if (is_x_pos_def_) {
-                log_x_det_ = std::log(x_llt_.matrixL().determinant());
-                x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
-                xv_inv_ = x_.get() * v_inv_;
-            }
+        x_llt_.compute(x_.get());
+        is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
+        if (is_x_pos_def_) {
+            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
+        }
+    }
+
+    void update_xv_cache() {
+        if (is_x_pos_def_ && is_v_pos_def_) {
+            xv_inv_ = x_.get() * v_inv_;
         }
     }
 
-- 
2.43.0


From 8110f3923a5717ef7e4463812422ce4a118cd098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:43 +0000
Subject: [PATCH 10/22] fix: copy of a bound expression viewed the storage of
 the original

---
 include/fastad_bits/reverse/core/bind.hpp | 29 ++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 9ea7ca6..9b62927 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <new>
+#include <utility>
 #include <vector>
 #include <fastad_bits/reverse/core/expr_base.hpp>
 #include <fastad_bits/util/type_traits.hpp>
@@ -25,16 +27,37 @@ struct ExprBind
         : expr_{expr}
         , val_cache_()
         , adj_cache_()
+    { rebind(); }
+
+    // A copy must own and view its own storage.
+    // Moving the caches keeps the storage that expr_ is viewing.
+    ExprBind(const ExprBind& other)
+        : expr_{other.expr_}
+        , val_cache_(other.val_cache_)
+        , adj_cache_(other.adj_cache_)
+    { rebind(); }
+
+    ExprBind(ExprBind&&) = default;
+
+    // Assigning expr_ would assign through the views of its nodes.
+    ExprBind& operator=(ExprBind other)
+    {
+        this->~ExprBind();
+        new (this) ExprBind(std::move(other));
+        return *this;
+    }
+    
+    expr_t& get() { return expr_; }
+
+private:
+    void rebind()
     {
         auto size_pack = expr_.bind_cache_size();
         val_cache_.resize(size_pack(0));
         adj_cache_.resize(size_pack(1));
         expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
     }
-    
-    expr_t& get() { return expr_; }
 
-private:
     expr_t expr_; 
     Eigen::Matrix<value_t, Eigen::Dynamic, 1> val_cache_;
     Eigen::Matrix<value_t, Eigen::Dynamic, 1> adj_cache_;
-- 
2.43.0


From 05bda5f62150ae61655616c2a1d7b825b7afd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:10 +0000
Subject: [PATCH 11/22] fix: evaluate_adj did not accept a bound
 multi-dimensional expression

---
 include/fastad_bits/reverse/core/eval.hpp | 326 ++++++++++++----------
 1 file changed, 171 insertions(+), 155 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 799dbac..71f393f 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -1,155 +1,171 @@
-#pragma once
-#include <cstdlib>
-#include <type_traits>
-#include <tuple>
-#include <fastad_bits/reverse/core/expr_base.hpp>
-#include <fastad_bits/reverse/core/bind.hpp>
-#include <fastad_bits/util/value.hpp>
-
-namespace ad {
-
-/*
- * Evaluates expression in the forward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward evaluate
- * @return the expression value
- */
-
-template <class ExprType>
-inline auto evaluate(ExprType&& expr)
-{
-    return expr.feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>& expr)
-{
-    return expr.get().feval();
-}
-
-template <class ExprType>
-inline auto evaluate(core::ExprBind<ExprType>&& expr)
-{
-    return expr.get().feval();
-}
-
-/* 
- * Evaluates expression in the backward direction of reverse-mode AD.
- * Default parameter should fail exactly when expression is multi-dimensional.
- *
- * @tparam ExprType expression type
- * @param expr  expression to backward evaluate
- */
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(ExprType&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    expr.beval(seed);
-}
-
-template <class ExprType>
-inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>& expr, 
-             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-template <class ExprType, class T>
-inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-evaluate_adj(core::ExprBind<ExprType>&& expr, 
-             const Eigen::ArrayBase<T>& seed)
-{
-    evaluate_adj(expr.get(), seed);
-}
-
-/* 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(ExprType&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    auto t = evaluate(expr);
-    evaluate_adj(expr, seed);
-    return t;
-}
-
-/** 
- * Evaluates expression both in the forward and backward direction of reverse-mode AD.
- * Overload for ExprBind helper class.
- *
- * @tparam ExprType expression type
- * @param expr  expression to forward and backward evaluate
- * Returns the forward expression value
- */
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     typename util::expr_traits<
-                        std::decay_t<ExprType>>::value_t seed = 1.)
-{
-    return autodiff(expr.get(), seed);
-}
-
-template <class ExprType
-        , class T
-        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
-        >
-inline auto autodiff(core::ExprBind<ExprType>&& expr,
-                     const Eigen::ArrayBase<T>& seed)
-{
-    return autodiff(expr.get(), seed);
-}
-
-} // namespace ad
+#pragma once
+#include <cstdlib>
+#include <type_traits>
+#include <tuple>
+#include <fastad_bits/reverse/core/expr_base.hpp>
+#include <fastad_bits/reverse/core/bind.hpp>
+#include <fastad_bits/util/value.hpp>
+
+namespace ad {
+
+/*
+ * Evaluates expression in the forward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward evaluate
+ * @return the expression value
+ */
+
+template <class ExprType>
+inline auto evaluate(ExprType&& expr)
+{
+    return expr.feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>& expr)
+{
+    return expr.get().feval();
+}
+
+template <class ExprType>
+inline auto evaluate(core::ExprBind<ExprType>&& expr)
+{
+    return expr.get().feval();
+}
+
+/* 
+ * Evaluates expression in the backward direction of reverse-mode AD.
+ * Default parameter should fail exactly when expression is multi-dimensional.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to backward evaluate
+ */
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(ExprType&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    expr.beval(seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType>
+inline std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             typename util::expr_traits<std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>&& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
+/* 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(ExprType&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    auto t = evaluate(expr);
+    evaluate_adj(expr, seed);
+    return t;
+}
+
+/** 
+ * Evaluates expression both in the forward and backward direction of reverse-mode AD.
+ * Overload for ExprBind helper class.
+ *
+ * @tparam ExprType expression type
+ * @param expr  expression to forward and backward evaluate
+ * Returns the forward expression value
+ */
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class = std::enable_if_t<util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     typename util::expr_traits<
+                        std::decay_t<ExprType>>::value_t seed = 1.)
+{
+    return autodiff(expr.get(), seed);
+}
+
+template <class ExprType
+        , class T
+        , class = std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+        >
+inline auto autodiff(core::ExprBind<ExprType>&& expr,
+                     const Eigen::ArrayBase<T>& seed)
+{
+    return autodiff(expr.get(), seed);
+}
+
+} // namespace ad
-- 
2.43.0


From 2fed288bb6e36d7858cf37fde548accfe8d728b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:54 +0000
Subject: [PATCH 12/22] fix: an integer constant as left operand of a binary
 operator did not compile

---
 include/fastad_bits/reverse/core/binary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index a738294..ffb7f4c 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -37,7 +37,7 @@ template <class Binary
         , class LeftExprType
         , class RightExprType>
 struct BinaryNode:
-    ValueAdjView<typename util::expr_traits<LeftExprType>::value_t,
+    ValueAdjView<util::common_value_t<LeftExprType, RightExprType>,
                  util::max_shape_t<typename util::shape_traits<LeftExprType>::shape_t,
                                    typename util::shape_traits<RightExprType>::shape_t>
                 >,
-- 
2.43.0


From 932c1ceafd28cdcf0e8dbd75ecffa02989d5f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:53 +0000
Subject: [PATCH 13/22] fix: a bare variable or constant could not be bound

---
 include/fastad_bits/reverse/core/constant.hpp | 4 ++--
 include/fastad_bits/reverse/core/var_view.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 0f2108e..2a1d3f8 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -62,7 +62,7 @@ struct ConstantView:
     template <class T>
     constexpr T bind(T begin) const { return begin; }
 
-    template <class T>
+    template <class T = ptr_pack_t>
     constexpr T bind_cache(T begin) const { return begin; }
 
     util::SizePack bind_cache_size() const { return {0,0}; }
@@ -105,7 +105,7 @@ public:
     template <class T>
     constexpr T bind(T begin) const { return begin; }
 
-    template <class T>
+    template <class T = ptr_pack_t>
     constexpr T bind_cache(T begin) const { return begin; }
 
     util::SizePack bind_cache_size() const { return {0,0}; }
diff --git a/include/fastad_bits/reverse/core/var_view.hpp b/include/fastad_bits/reverse/core/var_view.hpp
index 94f27f6..bc2c906 100644
--- a/include/fastad_bits/reverse/core/var_view.hpp
+++ b/include/fastad_bits/reverse/core/var_view.hpp
@@ -96,7 +96,7 @@ struct VarViewBase<VarView<ValueType, ShapeType>>:
     /**
      * Cache bind size is 0 since it will never get rebound once an expression is constructed.
      */
-    template <class T>
+    template <class T = ptr_pack_t>
     constexpr T bind_cache(T begin) { return begin; }
     util::SizePack bind_cache_size() const { return {0,0}; }
     util::SizePack single_bind_cache_size() const { return {0,0}; }
-- 
2.43.0


From 205a3993509268156aa62cd02905602d02ad6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:33 +0000
Subject: [PATCH 14/22] fix: bernoulli with a constant vector of observations
 did not compile

---
 include/fastad_bits/reverse/core/constant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 2a1d3f8..55b44de 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -130,6 +130,8 @@ public:
         }
     }
 
+    size_t size() const { return rows() * cols(); }
+
     size_t rows() const { 
         if constexpr (util::is_scl_v<this_t>) {
             return 1;
-- 
2.43.0


From ec35da7da5f9bc57476b232d5026f714e3d856fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:33 +0000
Subject: [PATCH 15/22] fix: sum and prod over a range of constant matrices did
 not compile

---
 include/fastad_bits/reverse/core/prod.hpp | 2 +-
 include/fastad_bits/reverse/core/sum.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 432ede3..3c2c9c4 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -269,7 +269,7 @@ inline auto prod(Iter begin, Iter end, Lmda f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) return ad::constant(var_t{});
         var_t prod = f(*begin).feval();     // value_t or Eigen::Matrix
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
diff --git a/include/fastad_bits/reverse/core/sum.hpp b/include/fastad_bits/reverse/core/sum.hpp
index aba293a..08de6cd 100644
--- a/include/fastad_bits/reverse/core/sum.hpp
+++ b/include/fastad_bits/reverse/core/sum.hpp
@@ -223,7 +223,7 @@ inline auto sum(Iter begin, Iter end, Lmda&& f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) return ad::constant(var_t{});
         var_t sum = f(*begin).feval(); 
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
-- 
2.43.0


From 5a851d116106641b9ce2d355902681709519df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:00 +0000
Subject: [PATCH 16/22] fix: uniform with constant observations tested vector
 bounds once, at construction

---
 include/fastad_bits/reverse/stat/uniform.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index fb4ea17..b6dd90b 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -306,7 +306,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<max_t>) {
             update_x_cache();
         }
     }
@@ -322,7 +323,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<max_t>) {
             update_x_cache();
         }
 
@@ -399,7 +401,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<min_t>) {
             update_x_cache();
         }
     }
@@ -415,7 +418,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<min_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From b0f069b38d64cde408534e066b6c6701613f3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 17/22] fix: for_each over an empty range could not be bound in
 a sequence

---
 include/fastad_bits/reverse/core/for_each.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/for_each.hpp b/include/fastad_bits/reverse/core/for_each.hpp
index 01c1a23..a97ce3f 100644
--- a/include/fastad_bits/reverse/core/for_each.hpp
+++ b/include/fastad_bits/reverse/core/for_each.hpp
@@ -87,7 +87,8 @@ public:
      */
     ptr_pack_t bind_cache(ptr_pack_t begin)
     {
-        if (vec_.size() == 0) return begin;
+        // with no expression to view, an own (unused) cell stands for the value
+        if (vec_.size() == 0) return value_adj_view_t::bind(begin);
         for (auto& expr : vec_) {
             begin = expr.bind_cache(begin);
         }
@@ -97,6 +98,7 @@ public:
 
     util::SizePack bind_cache_size() const 
     { 
+        if (vec_.size() == 0) return {this->size(), this->size()};
         util::SizePack out = util::SizePack::Zero();
         for (const auto& expr : vec_) {
             out += expr.bind_cache_size();
-- 
2.43.0


From b69003121e6adcd219e3d8c9cbdb5be3457cf9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 18/22] fix: a scalar with an empty vector gave an expression
 of length one

---
 include/fastad_bits/reverse/core/binary.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index ffb7f4c..353a611 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -77,8 +77,8 @@ public:
     BinaryNode(const left_t& expr_lhs, 
                const right_t& expr_rhs)
         : value_adj_view_t(nullptr, nullptr,
-                       std::max(expr_lhs.rows(), expr_rhs.rows()),
-                       std::max(expr_lhs.cols(), expr_rhs.cols()))
+                       util::is_scl_v<left_t> ? expr_rhs.rows() : expr_lhs.rows(),
+                       util::is_scl_v<left_t> ? expr_rhs.cols() : expr_lhs.cols())
         , expr_lhs_(expr_lhs)
         , expr_rhs_(expr_rhs)
     {
-- 
2.43.0


From 5e92becfa6101d78707ab7b6cbf1cb0950e8f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0000
Subject: [PATCH 19/22] fix: log_det over- or underflowed the determinant
 before taking its logarithm

The logarithm of the product of the pivots is -inf or inf as soon as the
determinant leaves the range of the value type (e.g. a 200x200 matrix 0.01 I);
with LogDetLDLT the gradient was dropped as well. Sum the logarithms instead.
---
 include/fastad_bits/reverse/core/log_det.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fastad_bits/reverse/core/log_det.hpp b/include/fastad_bits/reverse/core/log_det.hpp
index ed1e1ec..115cdde 100644
--- a/include/fastad_bits/reverse/core/log_det.hpp
+++ b/include/fastad_bits/reverse/core/log_det.hpp
@@ -107,7 +107,7 @@ struct LogDetFullPivLU
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         lu_.compute(X);
-        return std::log(std::abs(lu_.determinant()));
+        return lu_.matrixLU().diagonal().array().abs().log().sum();
     }
 
     auto bmap() const 
@@ -139,7 +139,7 @@ struct LogDetLDLT
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         ldlt_.compute(X);
-        value_t logdet = std::log(std::abs(ldlt_.vectorD().prod()));
+        value_t logdet = ldlt_.vectorD().array().abs().log().sum();
         valid_ = (std::isfinite(logdet)) && (ldlt_.info() == Eigen::Success);
         return logdet;
     }
@@ -178,7 +178,7 @@ struct LogDetLLT
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         llt_.compute(X);
-        value_t logdet = std::log(std::abs(llt_.matrixL().determinant()));
+        value_t logdet = llt_.matrixLLT().diagonal().array().abs().log().sum();
         return 2. * logdet;
     }
 
@@ -206,7 +206,7 @@ private:
  * The default decomposition is Eigen::FullPivLU.
  * Currently, we support DetLDLT and DetLLT for some specialized matrices.
  * If x is a constant, the decomposition is ignored and 
- * will always just invoke member function determinant of the underlying Eigen object.
+ * will always just use the default decomposition.
  */
 template <template <class> class DecompType = LogDetFullPivLU
         , class T
@@ -223,7 +223,7 @@ inline auto log_det(const T& x)
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
         using var_t = util::constant_var_t<value_t, ad::scl>;
-        var_t out = std::log(std::abs(expr.feval().determinant()));
+        var_t out = LogDetFullPivLU<value_t>(expr.rows()).fmap(expr.feval());
         return ad::constant(out);
     } else {
         return core::LogDetNode<DecompType<value_t>, expr_t>(expr);
-- 
2.43.0


From cc0976ff194f4fccb504331a0d49dbbca7d38af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0000
Subject: [PATCH 20/22] fix: multivariate normal over- or underflowed the
 determinant of its covariance

The log-density was inf or -inf for covariances whose determinant leaves the
range of the value type. Sum the logarithms of the pivots instead.
---
 include/fastad_bits/reverse/stat/normal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 6ddc49d..5c2fd16 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -659,7 +659,7 @@ private:
         llt_.compute(sigma_.get());
         is_pos_def_ = (llt_.info() == Eigen::Success);
         if (is_pos_def_) {
-            log_det_ = std::log(llt_.matrixL().determinant());
+            log_det_ = llt_.matrixLLT().diagonal().array().log().sum();
             inv_ = llt_.solve(mat_t::Identity(sigma_.rows(), sigma_.cols()));
         }
     }
@@ -757,7 +757,7 @@ private:
         llt_.compute(sigma_.get());
         is_pos_def_ = (llt_.info() == Eigen::Success);
         if (is_pos_def_) {
-            log_det_ = std::log(llt_.matrixL().determinant());
+            log_det_ = llt_.matrixLLT().diagonal().array().log().sum();
             inv_ = llt_.solve(mat_t::Identity(sigma_.rows(), sigma_.cols()));
         }
     }
-- 
2.43.0


From a6fdf53b7b38361e4bc8be9c200d9b814c93de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0000
Subject: [PATCH 21/22] fix: wishart over- or underflowed the determinants of
 its matrices

As for the multivariate normal: sum the logarithms of the pivots.
---
 include/fastad_bits/reverse/stat/wishart.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 48e8265..8584bd3 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -206,7 +206,7 @@ private:
         v_llt_.compute(v_.get());
         is_v_pos_def_ = (v_llt_.info() == Eigen::Success);
         if (is_v_pos_def_) {
-            log_v_det_ = std::log(v_llt_.matrixL().determinant());
+            log_v_det_ = v_llt_.matrixLLT().diagonal().array().log().sum();
             v_inv_ = v_llt_.solve(mat_t::Identity(v_.rows(), v_.cols()));
         }
     }
@@ -215,7 +215,7 @@ private:
         x_llt_.compute(x_.get());
         is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
         if (is_x_pos_def_) {
-            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            log_x_det_ = x_llt_.matrixLLT().diagonal().array().log().sum();
             x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
         }
     }
-- 
2.43.0


From 9ff31e18f603d2164461b0c73d22bc98849ba9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:31 +0000
Subject: [PATCH 22/22] fix: normal with constant observations and deviations
 lost all precision far from 0

The expanded square sum(x^2/s^2) - 2 m sum(x/s^2) + m^2 sum(1/s^2) cancels
when the observations are far from 0 compared to their spread (at 1e7 the
value was off by 0.05). Center the observations before expanding.
---
 include/fastad_bits/reverse/stat/normal.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 5c2fd16..618400f 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -409,6 +409,7 @@ public:
         : base_t(x, mean, sigma)
         , log_sigma_{0}
         , is_pos_def_{false}
+        , center_{0}
         , sq_term_{0}
         , lin_term_{0}
         , const_term_{0}
@@ -420,8 +421,10 @@ public:
             if constexpr (util::is_constant_v<x_t>) {
                 auto&& x = x_.get().array();
                 auto&& s = sigma_.get().array();
-                sq_term_ = (x/s).matrix().squaredNorm(); 
-                lin_term_ = (x/(s * s)).sum();
+                // centered such that terms do not cancel if x is far from 0
+                center_ = x.mean();
+                sq_term_ = ((x - center_)/s).matrix().squaredNorm(); 
+                lin_term_ = ((x - center_)/(s * s)).sum();
                 const_term_ = (1./s).matrix().squaredNorm();
             }
         }
@@ -443,8 +446,9 @@ public:
 
         if constexpr (util::is_constant_v<x_t> &&
                       util::is_constant_v<sigma_t>) {
+            value_t c = m - center_;
             return this->get() = 
-                -0.5 * (sq_term_ - 2 * m * lin_term_ + m * m * const_term_)
+                -0.5 * (sq_term_ - 2 * c * lin_term_ + c * c * const_term_)
                     - log_sigma_;
         } else {
             auto z = ((x - m) / s).matrix();
@@ -462,7 +466,7 @@ public:
 
         if constexpr (util::is_constant_v<x_t> &&
                       util::is_constant_v<sigma_t>) {
-            value_t mean_adj = lin_term_ - m * const_term_;
+            value_t mean_adj = lin_term_ - (m - center_) * const_term_;
             mean_.beval(seed * mean_adj);
         } else {
 
@@ -489,6 +493,7 @@ private:
     size_t is_pos_def_;
 
     // only used when x and sigma are both constant
+    value_t center_;
     value_t sq_term_;
     value_t lin_term_;
     value_t const_term_;
-- 
2.43.0

