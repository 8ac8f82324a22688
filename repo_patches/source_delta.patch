From e84376f46ee1e41cb280f258712bd014dfb34cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:38 +0000
Subject: [PATCH 01/50] fix: keep the fractional part of the fixed terms of an
 expression

---
 printemps/model_component/expression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index f3eae0a..c7316d3 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -392,7 +392,7 @@ class Expression : public multi_array::AbstractMultiArrayElement {
 
     /*************************************************************************/
     inline T_Expression fixed_term_value(void) {
-        int fixed_term_value = 0;
+        T_Expression fixed_term_value = 0;
         for (const auto &sensitivity : m_sensitivities) {
             if (sensitivity.first->is_fixed()) {
                 fixed_term_value +=
-- 
2.43.0


From c47a9d81988cc5896e12cd0649583ce9a5ca0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:38 +0000
Subject: [PATCH 02/50] fix: keep the constant term when an expression-like
 object is assigned to an expression

---
 printemps/model_component/expression.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index c7316d3..bfb9e12 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -500,8 +500,9 @@ class Expression : public multi_array::AbstractMultiArrayElement {
     template <template <class, class> class T_ExpressionLike>
     inline Expression<T_Variable, T_Expression> &operator=(
         const T_ExpressionLike<T_Variable, T_Expression> &a_EXPRESSION_LIKE) {
-        m_sensitivities  = a_EXPRESSION_LIKE.to_expression().sensitivities();
-        m_constant_value = 0;
+        const auto EXPRESSION = a_EXPRESSION_LIKE.to_expression();
+        m_sensitivities       = EXPRESSION.sensitivities();
+        m_constant_value      = EXPRESSION.constant_value();
         return *this;
     }
 
-- 
2.43.0


From 538bee4ce45bf1f9c0f732e413125906e9c42e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:55 +0000
Subject: [PATCH 03/50] fix: keep the index and the name of an array element
 when a value is assigned to it

---
 .../multi_array/abstract_multi_array_element.h    | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/printemps/multi_array/abstract_multi_array_element.h b/printemps/multi_array/abstract_multi_array_element.h
index a97e922..c2facd3 100644
--- a/printemps/multi_array/abstract_multi_array_element.h
+++ b/printemps/multi_array/abstract_multi_array_element.h
@@ -26,6 +26,21 @@ class AbstractMultiArrayElement {
         this->initialize();
     }
 
+    /*************************************************************************/
+    AbstractMultiArrayElement(const AbstractMultiArrayElement &) = default;
+
+    /*************************************************************************/
+    AbstractMultiArrayElement(AbstractMultiArrayElement &&) = default;
+
+    /*************************************************************************/
+    /**
+     * The index and the name belong to the element of the array and not to the
+     * value assigned to it.
+     */
+    AbstractMultiArrayElement &operator=(const AbstractMultiArrayElement &) {
+        return *this;
+    }
+
     /*************************************************************************/
     void initialize(void) {
         m_extension->proxy_index             = 0;
-- 
2.43.0


From 0e50c819f82dfb2f7fc9aaff9e4566740e1490e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:45 +0000
Subject: [PATCH 04/50] fix: refresh the coefficient properties of a constraint
 when the model structure is analysed

---
 printemps/model_component/constraint.h | 61 +++++++++++++++-----------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 4238381..c26c720 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -234,6 +234,41 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
         m_negative_part    = 0;
         m_is_enabled       = true;
 
+        this->setup_coefficient_properties();
+        this->clear_constraint_type();
+
+        switch (m_sense) {
+            case ConstraintSense::Less: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = false;
+                break;
+            }
+            case ConstraintSense::Equal: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            case ConstraintSense::Greater: {
+                m_is_less_or_equal    = false;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            default: {
+                throw std::logic_error(utility::format_error_location(
+                    __FILE__, __LINE__, __func__,
+                    "Constraint sense is invalid."));
+            }
+        }
+    }
+
+    /*************************************************************************/
+    inline void setup_coefficient_properties(void) {
+        /**
+         * NOTE: The results depend on the coefficients and on the categories of
+         * the variables, both of which can be changed after the constraint has
+         * been defined (e.g. by modifying the variable bounds or by eliminating
+         * the dependent variables).
+         */
         m_is_integer    = true;
         auto is_integer = [](const T_Expression a_VALUE) {
             return fabs(a_VALUE - floor(a_VALUE)) < constant::EPSILON_10;
@@ -272,35 +307,11 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
                 break;
             }
         }
-
-        this->clear_constraint_type();
-
-        switch (m_sense) {
-            case ConstraintSense::Less: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = false;
-                break;
-            }
-            case ConstraintSense::Equal: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            case ConstraintSense::Greater: {
-                m_is_less_or_equal    = false;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            default: {
-                throw std::logic_error(utility::format_error_location(
-                    __FILE__, __LINE__, __func__,
-                    "Constraint sense is invalid."));
-            }
-        }
     }
 
     /*************************************************************************/
     inline void setup_constraint_type(void) {
+        this->setup_coefficient_properties();
         this->clear_constraint_type();
         /// Singleton
         if (m_expression.sensitivities().size() == 1) {
-- 
2.43.0


From cd40da9e90ee815b7bcdfdf015dbe813a8c4d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:19 +0000
Subject: [PATCH 05/50] fix: keep a singleton equality whose solution the
 variable cannot take

The presolve fixed the variable at the truncated quotient, or at a value
outside of its bounds, and removed the constraint, so that a point violating
the constraint was reported as feasible.
---
 printemps/preprocess/problem_size_reducer.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 134ff7b..1e734fd 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -297,7 +297,17 @@ class ProblemSizeReducer {
                 /**
                  * If the singleton constraint is defined by an equality as
                  * ax+b=0, the value of the variable x will be fixed at -b/a.
+                 * The constraint is kept if -b/a is not a value which the
+                 * variable can take.
                  */
+                const double FIX_VALUE = std::round(bound_temp);
+                if (std::fabs(bound_temp - FIX_VALUE) > constant::EPSILON_10 ||
+                    FIX_VALUE < variable_lower_bound ||
+                    FIX_VALUE > variable_upper_bound) {
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
+                }
+
                 utility::print_message(  //
                     "The constraint " + a_constraint_ptr->name() +
                         " was removed instead of fixing the value of the "
@@ -306,7 +316,7 @@ class ProblemSizeReducer {
                         std::to_string(bound_temp) + ".",
                     a_IS_ENABLED_PRINT);
 
-                variable_ptr->fix_by(bound_temp);
+                variable_ptr->fix_by(FIX_VALUE);
                 if (a_constraint_ptr->is_enabled()) {
                     a_constraint_ptr->disable();
                     is_constraint_disabled = true;
-- 
2.43.0


From a9cf1e37c47526d44fd74e01933328820ecb0a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:49 +0000
Subject: [PATCH 06/50] fix: keep a singleton inequality whose bound is too
 large for the variable

The presolve removed the constraint as redundant although the bound of the
variable was not tightened, so that points violating it became feasible.
---
 printemps/preprocess/problem_size_reducer.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 1e734fd..8c9e8c9 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -357,6 +357,13 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(variable_lower_bound, bound_floor);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
+                } else if (bound_floor < variable_upper_bound) {
+                    /**
+                     * The bound is too large to be transferred to the variable,
+                     * and the constraint is kept.
+                     */
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 } else {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
@@ -404,6 +411,13 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(bound_ceil, variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
+                } else if (bound_ceil > variable_lower_bound) {
+                    /**
+                     * The bound is too large to be transferred to the variable,
+                     * and the constraint is kept.
+                     */
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 } else {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
-- 
2.43.0


From 4199cb85b957da684d033cb57fa8a707651439f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:49 +0000
Subject: [PATCH 07/50] fix: fix a variable without any effect at a value
 within its bounds

The presolve fixed such a variable at 0 even if its bounds exclude 0.
---
 printemps/preprocess/problem_size_reducer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 8c9e8c9..c62c309 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -92,13 +92,17 @@ class ProblemSizeReducer {
 
         const auto SENSITIVITY = a_variable_ptr->objective_sensitivity();
         if (fabs(SENSITIVITY) < constant::EPSILON_10) {
+            const T_Variable FIX_VALUE =
+                std::min(std::max(static_cast<T_Variable>(0),
+                                  a_variable_ptr->lower_bound()),
+                         a_variable_ptr->upper_bound());
             utility::print_message(
                 "The value of the variable " + a_variable_ptr->name() +
-                    " was fixed at " + std::to_string(0) +
+                    " was fixed at " + std::to_string(FIX_VALUE) +
                     " because it does not have sensitivity to any "
                     "constraint or objective function.",
                 a_IS_ENABLED_PRINT);
-            a_variable_ptr->fix_by(0);
+            a_variable_ptr->fix_by(FIX_VALUE);
             return true;
         }
 
-- 
2.43.0


From 8e385c97841c78dc7409fc734fcd7697b55c2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 08/50] fix: keep improving variables which occur only in set
 covering constraints

Of two variables with the same column, the presolve fixed the one with the
worse objective coefficient at 0 even if both can be 1 in every optimal
solution.
---
 printemps/preprocess/problem_size_reducer.h | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index c62c309..ccf7599 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -706,6 +706,30 @@ class ProblemSizeReducer {
                     continue;
                 }
 
+                /**
+                 * If the variable j improves the objective function and is
+                 * included only in set covering constraints, both of the
+                 * variables i and j can be 1 in an optimal solution.
+                 */
+                const auto SENSITIVITY =
+                    variable_ptrs[j]->objective_sensitivity();
+                if (m_model_ptr->is_minimization() ? SENSITIVITY < 0
+                                                   : SENSITIVITY > 0) {
+                    bool is_exclusive = false;
+                    for (const auto &constraint_ptr :
+                         variable_ptrs[j]->related_constraint_ptrs()) {
+                        if (constraint_ptr->is_enabled() &&
+                            constraint_ptr->is_less_or_equal()) {
+                            is_exclusive = true;
+                            break;
+                        }
+                    }
+                    if (!is_exclusive) {
+                        j++;
+                        continue;
+                    }
+                }
+
                 /**
                  * If the constraint coefficient pattern of the variables i and
                  * j is same, fix the value of the variable j at 0.
-- 
2.43.0


From 783f1e4754da4959bada17f86d878df994fe6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 09/50] fix: never change the value of a fixed variable in the
 presolve

The reductions for set partitioning, covering and packing constraints fixed
at 0 also variables which had been fixed at 1.
---
 printemps/preprocess/problem_size_reducer.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index ccf7599..fec0789 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -697,11 +697,10 @@ class ProblemSizeReducer {
                 }
 
                 /**
-                 * If the variable j is fixed at 0, the following procedure can
-                 * be skipped.
+                 * If the variable j is fixed, the following procedure can be
+                 * skipped.
                  */
-                if (variable_ptrs[j]->is_fixed() &&
-                    variable_ptrs[j]->value() == 0) {
+                if (variable_ptrs[j]->is_fixed()) {
                     j++;
                     continue;
                 }
@@ -1210,6 +1209,20 @@ class ProblemSizeReducer {
                     }
                 }
 
+                /**
+                 * The constraint i is kept if a variable included only in it
+                 * has already been fixed at a value other than 0.
+                 */
+                for (const auto &variable_ptr : variable_ptr_sets[i]) {
+                    if (variable_ptr->is_fixed() &&
+                        variable_ptr->value() != 0 &&
+                        variable_ptr_sets[j].find(variable_ptr) ==
+                            variable_ptr_sets[j].end()) {
+                        is_included = false;
+                        break;
+                    }
+                }
+
                 if (is_included) {
                     constraint_ptrs[i]->disable();
                     utility::print_message(  //
-- 
2.43.0


From 6f46d1628f2a3237c739d352b9b2b85b0b5bdb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:20 +0000
Subject: [PATCH 10/50] fix: do not eliminate a variable by an equation with
 fractional coefficients

The eliminated variable takes the truncated value of the equation, so that
points violating the equation were reported as feasible.
---
 printemps/preprocess/dependent_variable_extractor.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/dependent_variable_extractor.h b/printemps/preprocess/dependent_variable_extractor.h
index 5667415..5b341b0 100644
--- a/printemps/preprocess/dependent_variable_extractor.h
+++ b/printemps/preprocess/dependent_variable_extractor.h
@@ -181,7 +181,12 @@ class DependentVariableExtractor {
             key_variable_ptr_counts;
 
         for (auto i = 0; i < CONSTRAINTS_SIZE; i++) {
-            if (!constraint_ptrs[i]->is_enabled()) {
+            /**
+             * A constraint with a fractional coefficient or constant does not
+             * define an integral value of the key variable.
+             */
+            if (!constraint_ptrs[i]->is_enabled() ||
+                !constraint_ptrs[i]->is_integer()) {
                 flags[i] = false;
                 continue;
             }
-- 
2.43.0


From b2d0d0c51c18a2a4848c35952fc6a04b669d2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:31 +0000
Subject: [PATCH 11/50] fix: do not propose two-flip moves which violate
 variable bounds

---
 printemps/neighborhood/two_flip_move_generator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/printemps/neighborhood/two_flip_move_generator.h b/printemps/neighborhood/two_flip_move_generator.h
index 55b1bae..69e948e 100644
--- a/printemps/neighborhood/two_flip_move_generator.h
+++ b/printemps/neighborhood/two_flip_move_generator.h
@@ -111,6 +111,10 @@ class TwoFlipMoveGenerator
                         (*a_flags)[i] = 0;
                         continue;
                     }
+                    if ((*a_moves_ptr)[i].has_bound_violation()) {
+                        (*a_flags)[i] = 0;
+                        continue;
+                    }
                     for (const auto &alteration :
                          (*a_moves_ptr)[i].alterations) {
                         if (alteration.first->value() == alteration.second) {
-- 
2.43.0


From 967751240d888c99784e05e7b299d12bc067faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:31 +0000
Subject: [PATCH 12/50] fix: constant-sum moves for constraints with negative
 coefficients

---
 printemps/neighborhood/constant_sum_integers_move_generator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/neighborhood/constant_sum_integers_move_generator.h b/printemps/neighborhood/constant_sum_integers_move_generator.h
index f783b7c..c9f4bea 100644
--- a/printemps/neighborhood/constant_sum_integers_move_generator.h
+++ b/printemps/neighborhood/constant_sum_integers_move_generator.h
@@ -80,7 +80,8 @@ class ConstantSumIntegersMoveGenerator
             move.sort_and_unique_related_constraint_ptrs();
 
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                constraint_ptrs[i]->expression().constant_value() *
+                binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
-- 
2.43.0


From a082479ef5a3ab46a3cfd59866c713d8c21f3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:31 +0000
Subject: [PATCH 13/50] fix: constant-difference moves when the first
 coefficient is negative

---
 .../neighborhood/constant_difference_integers_move_generator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/neighborhood/constant_difference_integers_move_generator.h b/printemps/neighborhood/constant_difference_integers_move_generator.h
index 1e91955..232cbba 100644
--- a/printemps/neighborhood/constant_difference_integers_move_generator.h
+++ b/printemps/neighborhood/constant_difference_integers_move_generator.h
@@ -80,7 +80,8 @@ class ConstantDifferenceIntegersMoveGenerator
             move.sort_and_unique_related_constraint_ptrs();
 
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                constraint_ptrs[i]->expression().constant_value() *
+                binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
-- 
2.43.0


From 6248ee406e6fe9a63a48dd0f5401388a49504eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:31 +0000
Subject: [PATCH 14/50] fix: constant-ratio moves step from the value of the
 altered variable

---
 .../neighborhood/constant_ratio_integers_move_generator.h     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/neighborhood/constant_ratio_integers_move_generator.h b/printemps/neighborhood/constant_ratio_integers_move_generator.h
index b8fa65c..e97bb77 100644
--- a/printemps/neighborhood/constant_ratio_integers_move_generator.h
+++ b/printemps/neighborhood/constant_ratio_integers_move_generator.h
@@ -131,7 +131,7 @@ class ConstantRatioIntegersMoveGenerator
                         auto &alterations = (*a_moves_ptr)[index].alterations;
 
                         alterations[0].second =
-                            binomials[i].variable_ptr_first->value() + 1;
+                            alterations[0].first->value() + 1;
                         alterations[1].second =
                             alterations[0].second * coefficients[i];
                     }
@@ -140,7 +140,7 @@ class ConstantRatioIntegersMoveGenerator
                         auto &alterations = (*a_moves_ptr)[index].alterations;
 
                         alterations[0].second =
-                            binomials[i].variable_ptr_first->value() - 1;
+                            alterations[0].first->value() - 1;
                         alterations[1].second =
                             alterations[0].second * coefficients[i];
                     }
-- 
2.43.0


From d15006c563f7e87dceab4d58476d70d90a5a4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 15/50] fix: trinomial exclusive-nor constraints have no
 constant term

---
 printemps/model_component/constraint.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index c26c720..24063f5 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -531,6 +531,10 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
                     }
                 }
 
+                if (m_expression.constant_value() != 0) {
+                    is_valid = false;
+                }
+
                 if (is_valid && plus_one_binary_variable_ptrs.size() == 2 &&
                     minus_two_binary_variable_ptrs.size() == 1) {
                     m_is_trinomial_exclusive_nor = true;
-- 
2.43.0


From 73b5e1c1c6ac75ffe19b5daa8cfdb618b80d6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:32 +0000
Subject: [PATCH 16/50] fix: compare the incumbent with the dual bound in the
 sense of the model

The feasible incumbent objective is kept as a minimisation problem while the
dual bound is kept in the sense of the model, so a maximisation problem could
be reported as solved to optimality by a solution which was not optimal.
---
 printemps/solver/tabu_search/core/tabu_search_core.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index 454439c..e5cdf28 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -151,7 +151,8 @@ class TabuSearchCore {
 
         if (STATE.number_of_moves > 0) {
             if (fabs(m_global_state_ptr->incumbent_holder
-                         .feasible_incumbent_objective() -
+                             .feasible_incumbent_objective() *
+                         m_model_ptr->sign() -
                      m_global_state_ptr->incumbent_holder.dual_bound()) <
                 constant::EPSILON) {
                 m_state_manager.set_termination_status(
-- 
2.43.0


From a4ace991527fd04543ac8b88afda754935fd5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:47 +0000
Subject: [PATCH 17/50] fix: a solution archive which is set up has no feasible
 solution yet

The flag was left uninitialised by the constructor with arguments and kept its
old value when an archive was set up again.
---
 printemps/solution/solution_archive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/solution/solution_archive.h b/printemps/solution/solution_archive.h
index 3977660..d233860 100644
--- a/printemps/solution/solution_archive.h
+++ b/printemps/solution/solution_archive.h
@@ -67,6 +67,7 @@ class SolutionArchive {
         m_name                  = a_NAME;
         m_number_of_variables   = a_NUMBER_OF_VARIABLES;
         m_number_of_constraints = a_NUMBER_OF_CONSTRAINTS;
+        m_has_feasible_solution = false;
     }
 
     /*************************************************************************/
-- 
2.43.0


From 1b62ca4e47c3c36d50098ed7f4fed2183f84ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:37 +0000
Subject: [PATCH 18/50] fix: read the constant term of the objective function
 from MPS files

A right-hand side of the objective row was stored as a constraint of that name
which no one used.
---
 printemps/model/model.h       |  1 +
 printemps/mps/mps.h           | 10 +++++++++-
 printemps/mps/mps_objective.h |  2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a473399..965af79 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3563,6 +3563,7 @@ class Model {
             objective_sensitivities[variable_ptrs[VARIABLE_NAME]] = COEFFICIENT;
         }
         objective.set_sensitivities(objective_sensitivities);
+        objective += static_cast<T_Expression>(a_MPS.objective.constant);
         this->minimize(objective);
     }
 
diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index ece5b5b..c198c46 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -234,7 +234,15 @@ struct MPS {
                         name       = items[2 * i + 1];
                         double rhs = atof(items[2 * i + 2].c_str());
 
-                        this->constraints[name].rhs = rhs;
+                        if (name == this->objective.name) {
+                            /**
+                             * The right-hand side of the objective function is
+                             * the negative of its constant term.
+                             */
+                            this->objective.constant = -rhs;
+                        } else {
+                            this->constraints[name].rhs = rhs;
+                        }
                     }
                     break;
                 }
diff --git a/printemps/mps/mps_objective.h b/printemps/mps/mps_objective.h
index 8e319e3..d85fe9a 100644
--- a/printemps/mps/mps_objective.h
+++ b/printemps/mps/mps_objective.h
@@ -14,6 +14,7 @@ struct MPSObjective {
     MPSObjectiveSense                       sense;
     std::string                             name;
     std::unordered_map<std::string, double> sensitivities;
+    double                                  constant;
 
     /*************************************************************************/
     MPSObjective(void) {
@@ -25,6 +26,7 @@ struct MPSObjective {
         this->sense = MPSObjectiveSense::Minimize;
         this->name  = "";
         this->sensitivities.clear();
+        this->constant = 0.0;
     }
 };
 }  // namespace printemps::mps
-- 
2.43.0


From 8354113d6d97d9ef1c0ecac6130c1c1a7a7fabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:37 +0000
Subject: [PATCH 19/50] fix: apply the RANGES section of MPS files in the right
 direction

A range R turns L rows into [rhs - |R|, rhs], G rows into [rhs, rhs + |R|] and
E rows into [rhs, rhs + |R|] (R > 0) or [rhs - |R|, rhs] (R < 0). The additional
constraint was generated on the other side, and E rows stayed equalities.
---
 printemps/mps/mps.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index c198c46..adbc23a 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -272,30 +272,39 @@ struct MPS {
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Greater;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs + fabs(range);
+                                    this->constraints[name].rhs - fabs(range);
+                                this->number_of_greater_constraints++;
                                 break;
                             }
                             case MPSConstraintSense::Greater: {
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Less;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs - fabs(range);
+                                    this->constraints[name].rhs + fabs(range);
+                                this->number_of_lesser_constraints++;
                                 break;
                             }
                             case MPSConstraintSense::Equal: {
                                 if (range > 0) {
-                                    this->constraints[name_new].sense =
+                                    this->constraints[name].sense =
                                         MPSConstraintSense::Greater;
+                                    this->constraints[name_new].sense =
+                                        MPSConstraintSense::Less;
                                     this->constraints[name_new].rhs =
                                         this->constraints[name].rhs +
                                         fabs(range);
                                 } else {
-                                    this->constraints[name_new].sense =
+                                    this->constraints[name].sense =
                                         MPSConstraintSense::Less;
+                                    this->constraints[name_new].sense =
+                                        MPSConstraintSense::Greater;
                                     this->constraints[name_new].rhs =
                                         this->constraints[name].rhs -
                                         fabs(range);
                                 }
+                                this->number_of_equal_constraints--;
+                                this->number_of_lesser_constraints++;
+                                this->number_of_greater_constraints++;
                                 break;
                             }
                             default: {
@@ -308,7 +317,6 @@ struct MPS {
                         }
 
                         this->constraint_names.push_back(name_new);
-                        this->number_of_lesser_constraints++;
                     }
                     break;
                 }
-- 
2.43.0


From 82edec5e4d6e34a2d32597fc6bfedb5e855e9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:37 +0000
Subject: [PATCH 20/50] fix: round fractional and limit huge bounds of integer
 variables in MPS files

Lower bounds of 0.5 were read as 0 and upper bounds of -0.5 as 0, and bounds
such as 1e30, which denote infinity, overflowed the conversion to an integer.
---
 printemps/mps/mps.h | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index adbc23a..df08009 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -54,6 +54,20 @@ struct MPS {
         this->number_of_greater_constraints = 0;
     }
 
+    /*************************************************************************/
+    inline static int to_integer(const double a_VALUE) {
+        /**
+         * Values beyond the range of integer variables denote infinity.
+         */
+        if (a_VALUE <= constant::INT_HALF_MIN) {
+            return constant::INT_HALF_MIN;
+        }
+        if (a_VALUE >= constant::INT_HALF_MAX) {
+            return constant::INT_HALF_MAX;
+        }
+        return static_cast<int>(a_VALUE);
+    }
+
     /*************************************************************************/
     inline void read_mps(const std::string &a_FILE_NAME) {
         bool is_valid = false;
@@ -373,13 +387,18 @@ struct MPS {
                                 HUGE_VAL;
                         }
                     } else if (ITEMS_SIZE == 4) {
-                        double continuous_value = atof(items[3].c_str());
-                        int integer_value = static_cast<int>(continuous_value);
+                        const double continuous_value = atof(items[3].c_str());
+                        const int    integer_value =
+                            this->to_integer(continuous_value);
+                        const int integer_lower_value =
+                            this->to_integer(std::ceil(continuous_value));
+                        const int integer_upper_value =
+                            this->to_integer(std::floor(continuous_value));
 
                         if (category == "LO") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                integer_lower_value;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "LI") {
@@ -387,13 +406,13 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                integer_lower_value;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "UP") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                integer_upper_value;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "UI") {
@@ -401,7 +420,7 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                integer_upper_value;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "FX") {
-- 
2.43.0


From 12b2e1e5dc900f6c46b3205d93024853cca8b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:37 +0000
Subject: [PATCH 21/50] fix: a PL record of an MPS file keeps the lower bound

PL makes the upper bound infinite. A lower bound given before was reset to 0.
---
 printemps/mps/mps.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index df08009..681f28e 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -378,11 +378,9 @@ struct MPS {
                                 -HUGE_VAL;
                             this->variables[name].continuous_upper_bound = 0;
                         } else if (category == "PL") {
-                            this->variables[name].is_bound_defined    = true;
-                            this->variables[name].integer_lower_bound = 0;
+                            this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
                                 constant::INT_HALF_MAX;
-                            this->variables[name].continuous_lower_bound = 0;
                             this->variables[name].continuous_upper_bound =
                                 HUGE_VAL;
                         }
-- 
2.43.0


From a563059f506dd2f6a81534ab68209d6f34c35a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 22/50] fix: keep separators and brackets in quoted strings of
 JSON files

The tokenizer replaced commas, colons and brackets in the whole text, so that
strings such as "x[0,1]" were read back as "x[ 0 1 ]".
---
 printemps/utility/json/json.h | 63 ++++++++++++++---------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index e7d5d8b..79ab30b 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -428,53 +428,40 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
 
 /*****************************************************************************/
 inline std::vector<std::string> tokenize(const std::string& a_ARG) {
-    std::vector<std::pair<std::string, std::string>> rules;
-    rules.emplace_back("\r\n", "");
-    rules.emplace_back(",", " ");
-    rules.emplace_back(":", " ");
-    rules.emplace_back("\\{", "{ ");
-    rules.emplace_back("\\}", " }");
-    rules.emplace_back("\\[", "[ ");
-    rules.emplace_back("\\]", " ]");
-
-    std::string preprocessed = a_ARG;
-    for (const auto& rule : rules) {
-        preprocessed = std::regex_replace(preprocessed, std::regex(rule.first),
-                                          rule.second);
-    }
-
     std::vector<std::string> tokens;
+    std::string              token;
+    bool                     is_quotation_open = false;
 
-    std::size_t position             = 0;
-    std::size_t token_start_position = 0;
-    bool        is_token_open        = false;
-    bool        is_quotation_open    = false;
-
-    while (position < preprocessed.size()) {
-        if (preprocessed[position] == '\"') {
-            is_quotation_open = !is_quotation_open;
+    const auto close_token = [&tokens, &token](void) {
+        if (!token.empty()) {
+            tokens.push_back(token);
+            token.clear();
         }
+    };
 
-        if (preprocessed[position] == ' ' || preprocessed[position] == '\t') {
-            if (is_token_open && !is_quotation_open) {
-                tokens.push_back(preprocessed.substr(
-                    token_start_position, position - token_start_position));
-                is_token_open = false;
+    for (const auto& c : a_ARG) {
+        if (is_quotation_open) {
+            /**
+             * Characters in quotations are a part of the token as they are.
+             */
+            token += c;
+            if (c == '\"') {
+                is_quotation_open = false;
             }
+        } else if (c == ' ' || c == '\t' || c == '\r' || c == '\n' ||
+                   c == ',' || c == ':') {
+            close_token();
+        } else if (c == '{' || c == '}' || c == '[' || c == ']') {
+            close_token();
+            tokens.emplace_back(1, c);
         } else {
-            if (!is_token_open) {
-                token_start_position = position;
-                is_token_open        = true;
+            token += c;
+            if (c == '\"') {
+                is_quotation_open = true;
             }
         }
-        position++;
-    }
-
-    if (is_token_open) {
-        const auto TOKEN = preprocessed.substr(
-            token_start_position, preprocessed.size() - token_start_position);
-        tokens.push_back(TOKEN);
     }
+    close_token();
 
     return tokens;
 }
-- 
2.43.0


From a3fd62b486d20f887185e1e0f4545193a9041a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 23/50] fix: read true and false in JSON arrays as boolean
 values

They were stored as strings, unlike in JSON objects.
---
 printemps/utility/json/json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index 79ab30b..549b7d9 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -621,12 +621,12 @@ inline JsonArray parse_json_array(const std::vector<std::string>& a_TOKENS,
             /**
              * Store as true boolean value.
              */
-            array.emplace_back(std::string("true"));
+            array.emplace_back(true);
         } else if (TOKEN == "false") {
             /**
              * Store as false boolean value.
              */
-            array.emplace_back(std::string("false"));
+            array.emplace_back(false);
         } else if (is_integer(TOKEN)) {
             /**
              * Store as integer value.
-- 
2.43.0


From 60d38ddd1d9b838b3e5a207419c8acaf2703dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 24/50] fix: write long long values in JSON arrays

They were cast to long, which threw std::bad_any_cast.
---
 printemps/utility/json/json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index 549b7d9..4938e64 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -362,12 +362,14 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
             /**
              * Write long long type element.
              */
-            os << indent_space(indent_level) << std::any_cast<long>(element);
+            os << indent_space(indent_level)
+               << std::any_cast<long long>(element);
         } else if (element.type() == typeid(unsigned long long)) {
             /**
              * Write unsigned long long type element.
              */
-            os << indent_space(indent_level) << std::any_cast<long>(element);
+            os << indent_space(indent_level)
+               << std::any_cast<unsigned long long>(element);
         } else if (element.type() == typeid(float)) {
             /**
              * Write float type element.
-- 
2.43.0


From 99238c069b6521d5762883132e6dedf54cb38238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 25/50] fix: write floating point values to JSON files without
 loss

The default precision of 7 significant digits changed objective values and
coefficients.
---
 printemps/utility/json/json.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index 4938e64..92ebf63 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -232,17 +232,23 @@ inline std::ostream& operator<<(std::ostream& os, const JsonObject& a_JSON) {
             /**
              * Write float type element.
              */
-            os << std::scientific << std::any_cast<float>(element.second);
+            os << std::scientific
+               << std::setprecision(std::numeric_limits<float>::max_digits10 - 1)
+               << std::any_cast<float>(element.second);
         } else if (element.second.type() == typeid(double)) {
             /**
              * Write double type element.
              */
-            os << std::scientific << std::any_cast<double>(element.second);
+            os << std::scientific
+               << std::setprecision(std::numeric_limits<double>::max_digits10 - 1)
+               << std::any_cast<double>(element.second);
         } else if (element.second.type() == typeid(long double)) {
             /**
              * Write long double type element.
              */
-            os << std::scientific << std::any_cast<long double>(element.second);
+            os << std::scientific
+               << std::setprecision(std::numeric_limits<long double>::max_digits10 - 1)
+               << std::any_cast<long double>(element.second);
         } else if (element.second.type() == typeid(bool)) {
             /**
              * Write bool type element as true or false.
@@ -375,18 +381,21 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
              * Write float type element.
              */
             os << indent_space(indent_level) << std::scientific
+               << std::setprecision(std::numeric_limits<float>::max_digits10 - 1)
                << std::any_cast<float>(element);
         } else if (element.type() == typeid(double)) {
             /**
              * Write double type element.
              */
             os << indent_space(indent_level) << std::scientific
+               << std::setprecision(std::numeric_limits<double>::max_digits10 - 1)
                << std::any_cast<double>(element);
         } else if (element.type() == typeid(long double)) {
             /**
              * Write long double type element.
              */
             os << indent_space(indent_level) << std::scientific
+               << std::setprecision(std::numeric_limits<long double>::max_digits10 - 1)
                << std::any_cast<long double>(element);
         } else if (element.type() == typeid(bool)) {
             /**
-- 
2.43.0


From df49609b3eaa893b2dc028af1fc8ea6bba5fa027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 26/50] fix: initialise the indent level of a JSON array made
 from a container

---
 printemps/utility/json/json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index 92ebf63..409c488 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -90,6 +90,7 @@ struct JsonArray {
     /*************************************************************************/
     template <class T_Container>
     JsonArray(const T_Container& a_ARRAY) {
+        this->initialize();
         this->setup(a_ARRAY);
     }
 
-- 
2.43.0


From d6355c80b6c92e59524123ce4765cfd2c9d11f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 27/50] fix: write the name of an unnamed model and the
 constant term to JSON files

The name was written as null, and the constant term of the objective function
was omitted.
---
 printemps/model/model.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 965af79..b6a6d6c 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3723,7 +3723,7 @@ class Model {
          * Instance name
          */
         if (m_name.empty()) {
-            object.emplace_back("name", "untitled");
+            object.emplace_back("name", std::string("untitled"));
         } else {
             object.emplace_back("name", utility::delete_space(m_name));
         }
@@ -3771,6 +3771,8 @@ class Model {
         }
         objective_object.emplace_back("sensitivities",
                                       objective_sensitivity_array);
+        objective_object.emplace_back(
+            "constant", m_objective.expression().constant_value());
         object.emplace_back("objective", objective_object);
 
         /**
-- 
2.43.0


From 1a6976e8718768418ed38cf65a56610c002bf49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 28/50] fix: write the coefficients of MPS files without loss

The default precision of 6 significant digits wrote 1234567 as 1.23457e+06.
---
 printemps/model/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index b6a6d6c..a7f4c23 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3570,6 +3570,7 @@ class Model {
     /*********************************************************************/
     void write_mps(const std::string &a_FILE_NAME) {
         std::ofstream ofs(a_FILE_NAME);
+        ofs << std::setprecision(std::numeric_limits<double>::max_digits10);
         /**
          * Determine unique name of variables and constraints.
          */
-- 
2.43.0


From 556df1ddb9483f83583fbe5b415c1cf48cfef2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 29/50] fix: write infinite bounds to MPS files

Without a record a free integer variable is read as one within [0, 1], and
a variable without lower bound as a nonnegative one.
---
 printemps/model/model.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a7f4c23..15ccca3 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3682,14 +3682,17 @@ class Model {
                     ofs << "    FX    bnd    " << VARIABLE_NAME << "     "
                         << variable.value() << std::endl;
                 } else {
-                    if (variable.lower_bound() != constant::INT_HALF_MIN) {
-                        if (variable.lower_bound() != 0) {
-                            ofs << "    LO    bnd    " << VARIABLE_NAME
-                                << "    " << variable.lower_bound()
-                                << std::endl;
-                        }
+                    if (variable.lower_bound() == constant::INT_HALF_MIN) {
+                        ofs << "    MI    bnd    " << VARIABLE_NAME
+                            << std::endl;
+                    } else if (variable.lower_bound() != 0) {
+                        ofs << "    LO    bnd    " << VARIABLE_NAME << "    "
+                            << variable.lower_bound() << std::endl;
                     }
-                    if (variable.upper_bound() != constant::INT_HALF_MAX) {
+                    if (variable.upper_bound() == constant::INT_HALF_MAX) {
+                        ofs << "    PL    bnd    " << VARIABLE_NAME
+                            << std::endl;
+                    } else {
                         ofs << "    UP    bnd    " << VARIABLE_NAME << "    "
                             << variable.upper_bound() << std::endl;
                     }
-- 
2.43.0


From 76d2de1de58aae42f0f0fc72780ba925401c139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 30/50] fix: write the constant term of the objective function
 to MPS files

---
 printemps/model/model.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 15ccca3..e08759a 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3660,6 +3660,11 @@ class Model {
          * Write RHS section.
          */
         ofs << "RHS" << std::endl;
+        const auto OBJECTIVE_CONSTANT =
+            m_objective.expression().constant_value() * this->sign();
+        if (fabs(OBJECTIVE_CONSTANT) > constant::EPSILON_10) {
+            ofs << "    rhs    obj    " << -OBJECTIVE_CONSTANT << std::endl;
+        }
         for (const auto &proxy : m_constraint_proxies) {
             for (const auto &constraint : proxy.flat_indexed_constraints()) {
                 const auto CONSTRAINT_NAME =
-- 
2.43.0


From 7e3f68fd655e37969b54f2cec9fbc03a9cf134e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 31/50] fix: write variables which occur nowhere to the COLUMNS
 section of MPS files

Their bounds were written for an undefined variable, so that the file could
not be read.
---
 printemps/model/model.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index e08759a..34dd9be 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3632,9 +3632,10 @@ class Model {
             for (const auto &variable : proxy.flat_indexed_variables()) {
                 const auto VARIABLE_NAME =
                     utility::delete_space(variable.name());
-                /// Objective
+                /// Objective (also for a variable which occurs nowhere)
                 if (fabs(variable.objective_sensitivity()) >
-                    constant::EPSILON_10) {
+                        constant::EPSILON_10 ||
+                    variable.constraint_sensitivities().empty()) {
                     if (m_is_minimization) {
                         ofs << "    " << VARIABLE_NAME << "     obj    "
                             << variable.objective_sensitivity() << std::endl;
-- 
2.43.0


From 2cf177cb578fed4cc9e701344e1ac93b40a577cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:37 +0000
Subject: [PATCH 32/50] fix: record the selected variable when the initial
 values of a selection are corrected

---
 printemps/preprocess/verifier.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 09486e7..36cd346 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -186,6 +186,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -260,6 +261,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -326,6 +328,7 @@ class Verifier {
                 };
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
                 this->print_correction(selected_variable_ptr->name(), 0, 1,
                                        a_IS_ENABLED_PRINT);
 
-- 
2.43.0


From 969fb707c1cffa25e25e2d2b0515fd9df92dcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:37 +0000
Subject: [PATCH 33/50] fix: do not propose selection moves which change a
 fixed variable

---
 printemps/neighborhood/selection_move_generator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/neighborhood/selection_move_generator.h b/printemps/neighborhood/selection_move_generator.h
index ad30173..2dd9909 100644
--- a/printemps/neighborhood/selection_move_generator.h
+++ b/printemps/neighborhood/selection_move_generator.h
@@ -104,7 +104,8 @@ class SelectionMoveGenerator
                 for (auto i = 0; i < MOVES_SIZE; i++) {
                     (*a_flags)[i] = 1;
                     if ((*a_moves_ptr)[i].alterations[0].first ==
-                        (*a_moves_ptr)[i].alterations[1].first) {
+                            (*a_moves_ptr)[i].alterations[1].first ||
+                        (*a_moves_ptr)[i].alterations[0].first->is_fixed()) {
                         (*a_flags)[i] = 0;
                         continue;
                     }
-- 
2.43.0


From 80fcb1c73047a3731928106ede48872b496c16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:25 +0000
Subject: [PATCH 34/50] fix: verify the initial values of binary variables
 against their bounds

---
 printemps/preprocess/verifier.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 36cd346..0f08534 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -355,7 +355,8 @@ class Verifier {
 
         for (auto &&variable_ptr :
              m_model_ptr->variable_type_reference().binary_variable_ptrs) {
-            if (variable_ptr->value() == 0 || variable_ptr->value() == 1) {
+            if (variable_ptr->value() >= variable_ptr->lower_bound() &&
+                variable_ptr->value() <= variable_ptr->upper_bound()) {
                 continue;
             }
             if (variable_ptr->is_fixed()) {
-- 
2.43.0


From 814b4a3b0046773771af4fd6621e4300355470fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:05 +0000
Subject: [PATCH 35/50] fix: do not combine local search moves which alter the
 same variable

---
 .../local_search/core/local_search_core.h     | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index aec54ab..3c6ec37 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -469,7 +469,9 @@ class LocalSearchCore {
         std::vector<int>                     move_indices;
         std::unordered_set<
             model_component::Constraint<T_Variable, T_Expression>*>
-                                                     constraint_ptrs;
+            constraint_ptrs;
+        std::unordered_set<model_component::Variable<T_Variable, T_Expression>*>
+                                                     variable_ptrs;
         neighborhood::Move<T_Variable, T_Expression> move;
         int number_of_performed_moves = 0;
 
@@ -589,6 +591,7 @@ class LocalSearchCore {
 
             move.alterations.reserve(m_model_ptr->number_of_variables());
             constraint_ptrs.clear();
+            variable_ptrs.clear();
             number_of_performed_moves = 0;
             move.initialize();
             for (auto i = 0; i < NUMBER_OF_MOVES; i++) {
@@ -620,10 +623,26 @@ class LocalSearchCore {
                     }
                 }
 
+                /**
+                 * NOTE: Moves which alter a common variable cannot be combined
+                 * even if they share no enabled constraint.
+                 */
+                for (const auto& alteration : move_ptr->alterations) {
+                    if (variable_ptrs.find(alteration.first) !=
+                        variable_ptrs.end()) {
+                        has_intersection = true;
+                        break;
+                    }
+                }
+
                 if (has_intersection) {
                     continue;
                 }
 
+                for (const auto& alteration : move_ptr->alterations) {
+                    variable_ptrs.insert(alteration.first);
+                }
+
                 move.alterations.insert(move.alterations.end(),
                                         move_ptr->alterations.begin(),
                                         move_ptr->alterations.end());
-- 
2.43.0


From 40f93bf76095c6cca88d71091558963fd175604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:46 +0000
Subject: [PATCH 36/50] fix: use the objective of the model for online bounding
 in maximization

---
 .../solver/tabu_search/controller/tabu_search_controller.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller.h b/printemps/solver/tabu_search/controller/tabu_search_controller.h
index b850364..4ac0ca3 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller.h
@@ -958,7 +958,8 @@ class TabuSearchController
                 !state.previous_is_feasible_incumbent_updated) {
                 this->update_variable_bounds(
                     this->m_global_state_ptr->incumbent_holder
-                        .feasible_incumbent_objective(),
+                            .feasible_incumbent_objective() *
+                        this->m_model_ptr->sign(),
                     true,
                     this->m_option.output.verbose >= option::verbose::Outer);
             }
-- 
2.43.0


From e32bd7cc1d646ed2cc137688a7c61aa6a9705cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:46 +0000
Subject: [PATCH 37/50] fix: bound variables by a dual bound of a maximization
 in the right direction

---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 34dd9be..8b9e26a 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1679,7 +1679,7 @@ class Model {
                                        const bool   a_IS_PRIMAL,
                                        const bool   a_IS_ENABLED_PRINT) {
         model_component::Constraint<T_Variable, T_Expression> constraint;
-        if (m_is_minimization && a_IS_PRIMAL) {
+        if (m_is_minimization == a_IS_PRIMAL) {
             constraint = m_objective.expression() <= a_OBJECTIVE;
         } else {
             constraint = m_objective.expression() >= a_OBJECTIVE;
-- 
2.43.0


From 3b3519aaea51877a1b36c7c5392caed25286dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:23 +0000
Subject: [PATCH 38/50] fix: compute the Lagrangian of a maximization with the
 sign of its constraint terms

---
 printemps/model/model.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 8b9e26a..4f6e679 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3023,7 +3023,8 @@ class Model {
     inline double compute_lagrangian(
         const std::vector<multi_array::ValueProxy<double>>
             &a_LAGRANGE_MULTIPLIER_PROXIES) const noexcept {
-        double lagrangian = m_objective.value();
+        double       lagrangian = m_objective.value();
+        const double SIGN       = this->sign();
 
         for (auto &&constraint_ptr : m_constraint_reference.constraint_ptrs) {
             const int PROXY_INDEX = constraint_ptr->proxy_index();
@@ -3032,7 +3033,7 @@ class Model {
             lagrangian +=
                 a_LAGRANGE_MULTIPLIER_PROXIES[PROXY_INDEX].flat_indexed_values(
                     FLAT_INDEX) *
-                constraint_ptr->constraint_value();
+                constraint_ptr->constraint_value() * SIGN;
         }
         return lagrangian;
     }
-- 
2.43.0


From 17a1f8f564df88476fe895f67676196c11d4875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:44 +0000
Subject: [PATCH 39/50] fix: make hash maps of sensitivities copyable

---
 printemps/utility/fixed_size_hash_map.h | 45 +++++++------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/printemps/utility/fixed_size_hash_map.h b/printemps/utility/fixed_size_hash_map.h
index ee93fd9..64f20cd 100644
--- a/printemps/utility/fixed_size_hash_map.h
+++ b/printemps/utility/fixed_size_hash_map.h
@@ -21,10 +21,9 @@ class FixedSizeHashMap {
     std::uint_fast32_t m_bucket_size;
     std::uint_fast32_t m_mask;
 
-    bool     m_is_memory_allocated;
-    T_Key *  m_keys;
-    T_Value *m_values;
-    bool *   m_is_occupied;
+    std::vector<T_Key>        m_keys;
+    std::vector<T_Value>      m_values;
+    std::vector<std::uint8_t> m_is_occupied;
 
     /*************************************************************************/
     inline std::uint_fast32_t compute_hash(const T_Key a_KEY) const noexcept {
@@ -58,16 +57,6 @@ class FixedSizeHashMap {
         this->initialize();
     }
 
-    /*************************************************************************/
-    virtual ~FixedSizeHashMap(void) {
-        if (m_is_memory_allocated) {
-            delete[] m_is_occupied;
-            delete[] m_keys;
-            delete[] m_values;
-            m_is_memory_allocated = false;
-        }
-    }
-
     /*************************************************************************/
     FixedSizeHashMap(const std::unordered_map<T_Key, T_Value> &a_UNORDERED_MAP,
                      const std::uint_fast32_t                  a_KEY_SIZE) {
@@ -76,14 +65,13 @@ class FixedSizeHashMap {
 
     /*************************************************************************/
     inline void initialize(void) {
-        m_shift_size          = 0;
-        m_bucket_size         = FixedSizeHashMapConstant::DEFAULT_BUCKET_SIZE;
-        m_mask                = m_bucket_size - 1;
-        m_is_memory_allocated = false;
-
-        m_keys        = nullptr;
-        m_values      = nullptr;
-        m_is_occupied = nullptr;
+        m_shift_size  = 0;
+        m_bucket_size = FixedSizeHashMapConstant::DEFAULT_BUCKET_SIZE;
+        m_mask        = m_bucket_size - 1;
+
+        m_keys.clear();
+        m_values.clear();
+        m_is_occupied.clear();
     }
 
     /*************************************************************************/
@@ -101,16 +89,9 @@ class FixedSizeHashMap {
         m_bucket_size = bucket_size;
         m_mask        = m_bucket_size - 1;
 
-        m_keys                = new T_Key[m_bucket_size];
-        m_values              = new T_Value[m_bucket_size];
-        m_is_occupied         = new bool[m_bucket_size];
-        m_is_memory_allocated = true;
-
-        for (std::uint_fast32_t i = 0; i < bucket_size; i++) {
-            m_keys[i]        = static_cast<T_Key>(0);
-            m_values[i]      = static_cast<T_Value>(0);
-            m_is_occupied[i] = false;
-        }
+        m_keys.assign(m_bucket_size, static_cast<T_Key>(0));
+        m_values.assign(m_bucket_size, static_cast<T_Value>(0));
+        m_is_occupied.assign(m_bucket_size, 0);
 
         for (const auto &item : a_UNORDERED_MAP) {
             this->insert(item.first, item.second);
-- 
2.43.0


From 699992584c00e1e23d79e1ba18e7ccc0dac22715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 40/50] fix: include the constant term of the objective
 function in LP instances

---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 4f6e679..7a0495d 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1463,7 +1463,7 @@ class Model {
         using utility::sparse::SparseMatrix;
         using utility::sparse::Vector;
 
-        double objective_offset = 0.0;
+        double objective_offset = m_objective.expression().constant_value();
         for (const auto &variable_ptr :
              m_variable_reference.fixed_variable_ptrs) {
             objective_offset +=
-- 
2.43.0


From 55f4710f58b867283564b79f2319451b5b7c57b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:51 +0000
Subject: [PATCH 41/50] fix: allow sparse matrices without columns

---
 printemps/utility/sparse/sparse_matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/printemps/utility/sparse/sparse_matrix.h b/printemps/utility/sparse/sparse_matrix.h
index fce8010..2b74e85 100644
--- a/printemps/utility/sparse/sparse_matrix.h
+++ b/printemps/utility/sparse/sparse_matrix.h
@@ -91,7 +91,9 @@ struct SparseMatrix {
             c_temp[this->column_indices[i]] += VALUE;
             norm_infty = std::max(norm_infty, VALUE);
         }
-        this->norm_one   = *std::max_element(c_temp.begin(), c_temp.end());
+        this->norm_one   = c_temp.empty()
+                               ? 0.0
+                               : *std::max_element(c_temp.begin(), c_temp.end());
         this->norm_infty = norm_infty;
     }
 
-- 
2.43.0


From 484c47abc8ee39ca416a1f7521f45c141b109b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:35 +0000
Subject: [PATCH 42/50] fix: export the instance as given, not as left over by
 the optimization

---
 printemps/standalone/mps_solver.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/printemps/standalone/mps_solver.h b/printemps/standalone/mps_solver.h
index ef55e49..0311647 100644
--- a/printemps/standalone/mps_solver.h
+++ b/printemps/standalone/mps_solver.h
@@ -291,6 +291,14 @@ class MPSSolver {
 
     /*************************************************************************/
     inline void solve(void) {
+        /**
+         * Export the target instance. This must precede the optimization, which
+         * tightens the bounds of the variables and disables constraints.
+         */
+        if (m_export_json_instance) {
+            m_model.write_json(m_model.name() + ".json");
+        }
+
         /**
          * Run the solver.
          */
@@ -328,10 +336,6 @@ class MPSSolver {
             result.feasible_solution_archive.write_solutions_json(
                 "feasible.json");
         }
-
-        if (m_export_json_instance) {
-            m_model.write_json(m_model.name() + ".json");
-        }
     }
 
     /*************************************************************************/
-- 
2.43.0


From 2aa8a447e0b85487ea7efee8942125a22933cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:25 +0000
Subject: [PATCH 43/50] fix: respect the signs of coefficients when the
 solution of GF(2) equations is completed

---
 printemps/preprocess/gf2_solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/preprocess/gf2_solver.h b/printemps/preprocess/gf2_solver.h
index a5ecc52..f705355 100755
--- a/printemps/preprocess/gf2_solver.h
+++ b/printemps/preprocess/gf2_solver.h
@@ -152,7 +152,7 @@ class GF2Solver {
             double value            = expression.constant_value();
             for (const auto &sensitivity : expression.sensitivities()) {
                 if (sensitivity.first != key_variable_ptr) {
-                    value += sensitivity.first->value();
+                    value += sensitivity.second * sensitivity.first->value();
                 }
             }
             double key_coefficient =
-- 
2.43.0


From 7961896d983f0d899c92fd2f5cdbf0c246737c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:09 +0000
Subject: [PATCH 44/50] fix: leave disabled constraints out of the GF(2)
 equations

---
 printemps/preprocess/gf2_solver.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/gf2_solver.h b/printemps/preprocess/gf2_solver.h
index f705355..b628839 100755
--- a/printemps/preprocess/gf2_solver.h
+++ b/printemps/preprocess/gf2_solver.h
@@ -44,7 +44,14 @@ class GF2Solver {
         /**
          * Set up number of GF(2) equations.
          */
-        auto &    gf2s      = m_model_ptr->constraint_type_reference().gf2_ptrs;
+        std::vector<model_component::Constraint<T_Variable, T_Expression> *>
+            gf2s;
+        for (const auto &constraint_ptr :
+             m_model_ptr->constraint_type_reference().gf2_ptrs) {
+            if (constraint_ptr->is_enabled()) {
+                gf2s.push_back(constraint_ptr);
+            }
+        }
         const int GF2S_SIZE = gf2s.size();
 
         /**
-- 
2.43.0


From bd316a4cda0d4585b63bed570ee3fc7b0c450620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 45/50] fix: forget the old contents when sparse vectors and
 matrices are set up again

---
 printemps/utility/sparse/sparse_matrix.h | 3 ++-
 printemps/utility/sparse/vector.h        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/printemps/utility/sparse/sparse_matrix.h b/printemps/utility/sparse/sparse_matrix.h
index 2b74e85..5fa65a1 100644
--- a/printemps/utility/sparse/sparse_matrix.h
+++ b/printemps/utility/sparse/sparse_matrix.h
@@ -42,6 +42,7 @@ struct SparseMatrix {
         this->values.clear();
         this->row_indices.clear();
         this->column_indices.clear();
+        this->row_ptrs.clear();
         this->row_scaler.initialize();
         this->column_scaler.initialize();
         this->number_of_rows    = 0;
@@ -64,7 +65,7 @@ struct SparseMatrix {
         this->row_scaler        = Diagonal(this->number_of_rows);
         this->column_scaler     = Diagonal(this->number_of_columns);
 
-        this->row_ptrs.resize(this->number_of_rows + 1, 0);
+        this->row_ptrs.assign(this->number_of_rows + 1, 0);
 
         const int NONZERO_SIZE = this->values.size();
 
diff --git a/printemps/utility/sparse/vector.h b/printemps/utility/sparse/vector.h
index 4f20e6a..c044e55 100644
--- a/printemps/utility/sparse/vector.h
+++ b/printemps/utility/sparse/vector.h
@@ -32,7 +32,7 @@ struct Vector {
 
     /*************************************************************************/
     inline void setup(const int a_SIZE, const double a_VALUE) {
-        this->values.resize(a_SIZE, a_VALUE);
+        this->values.assign(a_SIZE, a_VALUE);
     }
 
     /*************************************************************************/
-- 
2.43.0


From 50772044a3fea1b2a1bfd234f47d2033f0c7d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 46/50] fix: keep the adjusted number of inner iterations
 within the given limit

---
 .../controller/tabu_search_controller_state_manager.h       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
index 2ac9809..cebcd71 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
@@ -1095,9 +1095,9 @@ class TabuSearchControllerStateManager {
                      m_option.tabu_search.iteration_increase_rate));
         }
 
-        m_state.iteration_max = std::max(
-            m_option.tabu_search.initial_tabu_tenure,
-            std::min(m_option.tabu_search.iteration_max, iteration_max));
+        m_state.iteration_max = std::min(
+            m_option.tabu_search.iteration_max,
+            std::max(m_option.tabu_search.initial_tabu_tenure, iteration_max));
     }
 
     /*************************************************************************/
-- 
2.43.0


From 2ce7a5e1aa7567c255e19b186c64236d86c014b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:58 +0000
Subject: [PATCH 47/50] fix: do not claim optimality for want of moves when the
 screening is off

---
 printemps/solver/tabu_search/core/tabu_search_core.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index e5cdf28..1b895e3 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -164,6 +164,15 @@ class TabuSearchCore {
         }
 
         if (m_model_ptr->is_feasible()) {
+            /**
+             * The objective improvabilities of the variables are not maintained
+             * when the screening is off.
+             */
+            if (m_option.neighborhood.improvability_screening_mode ==
+                option::improvability_screening_mode::Off) {
+                m_model_ptr->update_variable_objective_improvabilities();
+            }
+
             /**
              * NOTE: If the current solution is feasible and there is no
              * improvable solution, the solution should be an optimum. It can
-- 
2.43.0


From 77575c6d1eade9eb392510a9c3b380816a113c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:31 +0000
Subject: [PATCH 48/50] fix: do not truncate coefficients when classifying
 constraints

---
 printemps/model_component/constraint.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 24063f5..71dfb3c 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -608,7 +608,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                 bool is_plus_or_minus_one_coefficient = true;
                 for (const auto &sensitivity : m_expression.sensitivities()) {
-                    if (abs(sensitivity.second) != 1) {
+                    if (fabs(sensitivity.second) != 1) {
                         is_plus_or_minus_one_coefficient = false;
                         break;
                     }
@@ -830,7 +830,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
             T_Expression                        key_variable_coefficient = 0;
 
             auto constant_value = m_expression.constant_value();
-            if (constant_value != 0 && abs(constant_value) != 1) {
+            if (constant_value != 0 && fabs(constant_value) != 1) {
                 is_valid = false;
             }
 
@@ -850,12 +850,12 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                     if ((variable_ptr->sense() == VariableSense::Integer ||
                          variable_ptr->sense() == VariableSense::Binary) &&
-                        abs(coefficient) == 2) {
+                        fabs(coefficient) == 2) {
                         key_variable_ptr         = variable_ptr;
                         key_variable_coefficient = coefficient;
                         number_of_integer_variables_coefficient_two++;
                     } else if (variable_ptr->sense() != VariableSense::Binary ||
-                               abs(coefficient) != 1) {
+                               fabs(coefficient) != 1) {
                         is_valid = false;
                         break;
                     }
-- 
2.43.0


From de736a75137b2be77c122be2be2e93f86b7c65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:55 +0000
Subject: [PATCH 49/50] fix: keep the requested number of threads after the
 first tabu search loop

---
 .../controller/tabu_search_controller_state_manager.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
index cebcd71..070f14c 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
@@ -1415,7 +1415,8 @@ class TabuSearchControllerStateManager {
             m_state.is_enabled_move_update_parallelization =
                 m_state.number_of_threads_move_update > 1;
         } else {
-            m_state.number_of_threads_move_update = omp_get_max_threads();
+            m_state.number_of_threads_move_update =
+                m_option.parallel.number_of_threads_move_update;
             m_state.is_enabled_move_update_parallelization =
                 m_option.parallel.is_enabled_move_update_parallelization;
         }
@@ -1448,7 +1449,8 @@ class TabuSearchControllerStateManager {
             m_state.is_enabled_move_evaluation_parallelization =
                 m_state.number_of_threads_move_evaluation > 1;
         } else {
-            m_state.number_of_threads_move_evaluation = omp_get_max_threads();
+            m_state.number_of_threads_move_evaluation =
+                m_option.parallel.number_of_threads_move_evaluation;
             m_state.is_enabled_move_evaluation_parallelization =
                 m_option.parallel.is_enabled_move_evaluation_parallelization;
         }
-- 
2.43.0


From b118555bc78b74ed4c2641fd15c87c033e3a7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:55 +0000
Subject: [PATCH 50/50] fix: use the requested number of threads for all
 inverted integers moves

---
 printemps/neighborhood/inverted_integers_move_generator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/neighborhood/inverted_integers_move_generator.h b/printemps/neighborhood/inverted_integers_move_generator.h
index cdd3730..d187419 100644
--- a/printemps/neighborhood/inverted_integers_move_generator.h
+++ b/printemps/neighborhood/inverted_integers_move_generator.h
@@ -123,7 +123,8 @@ class InvertedIntegersMoveGenerator
                 const int MOVES_SIZE = a_moves_ptr->size();
 
 #ifdef _OPENMP
-#pragma omp parallel for if (a_IS_ENABLED_PARALLEL) schedule(static)
+#pragma omp parallel for if (a_IS_ENABLED_PARALLEL) schedule(static) \
+    num_threads(a_NUMBER_OF_THREADS)
 #endif
                 for (auto i = 0; i < MOVES_SIZE; i++) {
                     (*a_flags)[i] = 1;
-- 
2.43.0

