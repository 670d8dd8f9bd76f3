From f859c30d3c940ec40d6367f66a0195f5480fb6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 01/59] fix: keep an independent variable inside its bounds
 when presolve fixes it

---
 printemps/preprocess/problem_size_reducer.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 134ff7b..56018d8 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -92,13 +92,21 @@ class ProblemSizeReducer {
 
         const auto SENSITIVITY = a_variable_ptr->objective_sensitivity();
         if (fabs(SENSITIVITY) < constant::EPSILON_10) {
+            /**
+             * NOTE: The value closest to zero in the range between the lower
+             * and upper bounds is chosen, so that the variable does not violate
+             * its own bounds.
+             */
+            const auto FIX_VALUE = std::min<T_Variable>(
+                std::max<T_Variable>(0, a_variable_ptr->lower_bound()),
+                a_variable_ptr->upper_bound());
             utility::print_message(
                 "The value of the variable " + a_variable_ptr->name() +
-                    " was fixed at " + std::to_string(0) +
+                    " was fixed at " + std::to_string(FIX_VALUE) +
                     " because it does not have sensitivity to any "
                     "constraint or objective function.",
                 a_IS_ENABLED_PRINT);
-            a_variable_ptr->fix_by(0);
+            a_variable_ptr->fix_by(FIX_VALUE);
             return true;
         }
 
-- 
2.43.0


From 75f902b40f864b8b8fdc3f1329aaebbac4c41503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 02/59] fix: do not overwrite or contradict user-fixed
 variables when removing redundant set variables and constraints

---
 printemps/preprocess/problem_size_reducer.h | 22 +++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 56018d8..5bb3427 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -677,11 +677,10 @@ class ProblemSizeReducer {
                 }
 
                 /**
-                 * If the variable j is fixed at 0, the following procedure can
-                 * be skipped.
+                 * If the variable j has already been fixed, the following
+                 * procedure can be skipped.
                  */
-                if (variable_ptrs[j]->is_fixed() &&
-                    variable_ptrs[j]->value() == 0) {
+                if (variable_ptrs[j]->is_fixed()) {
                     j++;
                     continue;
                 }
@@ -1166,6 +1165,21 @@ class ProblemSizeReducer {
                     }
                 }
 
+                /**
+                 * If constraint i includes a variable which has already been
+                 * fixed at nonzero value and is not included in constraint j,
+                 * the constraint i cannot be removed.
+                 */
+                for (const auto &variable_ptr : variable_ptr_sets[i]) {
+                    if (variable_ptr->is_fixed() &&
+                        variable_ptr->value() != 0 &&
+                        variable_ptr_sets[j].find(variable_ptr) ==
+                            variable_ptr_sets[j].end()) {
+                        is_included = false;
+                        break;
+                    }
+                }
+
                 if (is_included) {
                     constraint_ptrs[i]->disable();
                     utility::print_message(  //
-- 
2.43.0


From 23ae9229992764818b3e25c9bc25aee73eccc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 03/59] fix: presolve singleton and bound propagation must not
 lose or falsify a constraint

---
 printemps/preprocess/problem_size_reducer.h | 66 ++++++++++++++-------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 5bb3427..a019739 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -305,16 +305,28 @@ class ProblemSizeReducer {
                 /**
                  * If the singleton constraint is defined by an equality as
                  * ax+b=0, the value of the variable x will be fixed at -b/a.
+                 * The constraint is left as it is if the value is not
+                 * integral or is out of the bounds of the variable, because
+                 * it cannot be satisfied.
                  */
+                const double FIX_VALUE = std::round(bound_temp);
+                if (std::fabs(coefficient * (bound_temp - FIX_VALUE)) >=
+                        constant::EPSILON_10 ||
+                    FIX_VALUE < variable_lower_bound ||
+                    FIX_VALUE > variable_upper_bound) {
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
+                }
+
                 utility::print_message(  //
                     "The constraint " + a_constraint_ptr->name() +
                         " was removed instead of fixing the value of the "
                         "variable " +
                         variable_ptr->name() + " by " +
-                        std::to_string(bound_temp) + ".",
+                        std::to_string(FIX_VALUE) + ".",
                     a_IS_ENABLED_PRINT);
 
-                variable_ptr->fix_by(bound_temp);
+                variable_ptr->fix_by(static_cast<T_Variable>(FIX_VALUE));
                 if (a_constraint_ptr->is_enabled()) {
                     a_constraint_ptr->disable();
                     is_constraint_disabled = true;
@@ -332,11 +344,11 @@ class ProblemSizeReducer {
                  * ax+b<=0 with a>0 (or ax+b>=0 with a<0), the lower bound of
                  * the variable will be tightened by floor(-b/a).
                  */
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
+                const double bound_floor =
+                    std::floor(bound_temp + constant::EPSILON_10);
 
                 if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                    std::fabs(bound_floor) < BOUND_LIMIT) {
                     if (a_constraint_ptr->name() == "") {
                         utility::print_message(
                             "The upper bound of the variable " +
@@ -355,6 +367,13 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(variable_lower_bound, bound_floor);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
+                } else if (bound_floor < variable_upper_bound) {
+                    /**
+                     * The constraint cannot be replaced with the bound of the
+                     * variable.
+                     */
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 } else {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
@@ -379,11 +398,11 @@ class ProblemSizeReducer {
                  * ax+b>=0 with a>0 (or ax+b<=0 with a<0), the upper bound of
                  * the variable will be tightened by ceil(-b/a).
                  */
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
+                const double bound_ceil =
+                    std::ceil(bound_temp - constant::EPSILON_10);
 
                 if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                    std::fabs(bound_ceil) < BOUND_LIMIT) {
                     if (a_constraint_ptr->name() == "") {
                         utility::print_message(  //
                             "The lower bound of the variable " +
@@ -402,6 +421,13 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(bound_ceil, variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
+                } else if (bound_ceil > variable_lower_bound) {
+                    /**
+                     * The constraint cannot be replaced with the bound of the
+                     * variable.
+                     */
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 } else {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
@@ -435,10 +461,10 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
+                const double bound_ceil =
+                    std::ceil(bound_temp - constant::EPSILON);
                 if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                    std::fabs(bound_ceil) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The lower bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
@@ -453,10 +479,10 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
+                const double bound_floor =
+                    std::floor(bound_temp + constant::EPSILON);
                 if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                    std::fabs(bound_floor) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The upper bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
@@ -481,10 +507,10 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
+                const double bound_floor =
+                    std::floor(bound_temp + constant::EPSILON);
                 if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                    std::fabs(bound_floor) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The upper bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
@@ -499,10 +525,10 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
+                const double bound_ceil =
+                    std::ceil(bound_temp - constant::EPSILON);
                 if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                    std::fabs(bound_ceil) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The lower bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
-- 
2.43.0


From 12543310b105fb04cb6bc0326dfbbdd21a7235e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 04/59] fix: guard empty columns in SparseMatrix::setup_norm

---
 printemps/utility/sparse/sparse_matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/printemps/utility/sparse/sparse_matrix.h b/printemps/utility/sparse/sparse_matrix.h
index fce8010..2b74e85 100644
--- a/printemps/utility/sparse/sparse_matrix.h
+++ b/printemps/utility/sparse/sparse_matrix.h
@@ -91,7 +91,9 @@ struct SparseMatrix {
             c_temp[this->column_indices[i]] += VALUE;
             norm_infty = std::max(norm_infty, VALUE);
         }
-        this->norm_one   = *std::max_element(c_temp.begin(), c_temp.end());
+        this->norm_one   = c_temp.empty()
+                               ? 0.0
+                               : *std::max_element(c_temp.begin(), c_temp.end());
         this->norm_infty = norm_infty;
     }
 
-- 
2.43.0


From 6d90cd610bb345d1b4e58eba8a237048df62f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 05/59] fix: do not truncate fractional terms of fixed
 variables in an expression

---
 printemps/model_component/expression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index f3eae0a..c7316d3 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -392,7 +392,7 @@ class Expression : public multi_array::AbstractMultiArrayElement {
 
     /*************************************************************************/
     inline T_Expression fixed_term_value(void) {
-        int fixed_term_value = 0;
+        T_Expression fixed_term_value = 0;
         for (const auto &sensitivity : m_sensitivities) {
             if (sensitivity.first->is_fixed()) {
                 fixed_term_value +=
-- 
2.43.0


From a0a42beb6408148de1bbfd4c74c07f7b7ab7220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 06/59] fix: use the right sign and side in online bounding for
 maximization problems

---
 printemps/model/model.h                                        | 2 +-
 .../solver/tabu_search/controller/tabu_search_controller.h     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a473399..78b4cc1 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1679,7 +1679,7 @@ class Model {
                                        const bool   a_IS_PRIMAL,
                                        const bool   a_IS_ENABLED_PRINT) {
         model_component::Constraint<T_Variable, T_Expression> constraint;
-        if (m_is_minimization && a_IS_PRIMAL) {
+        if (m_is_minimization == a_IS_PRIMAL) {
             constraint = m_objective.expression() <= a_OBJECTIVE;
         } else {
             constraint = m_objective.expression() >= a_OBJECTIVE;
diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller.h b/printemps/solver/tabu_search/controller/tabu_search_controller.h
index b850364..4ac0ca3 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller.h
@@ -958,7 +958,8 @@ class TabuSearchController
                 !state.previous_is_feasible_incumbent_updated) {
                 this->update_variable_bounds(
                     this->m_global_state_ptr->incumbent_holder
-                        .feasible_incumbent_objective(),
+                            .feasible_incumbent_objective() *
+                        this->m_model_ptr->sign(),
                     true,
                     this->m_option.output.verbose >= option::verbose::Outer);
             }
-- 
2.43.0


From 07fe6fddd67c2e599d8609ae3ab1415a02b40789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 07/59] fix: treat variables with coincident bounds as fixed
 even if presolve is disabled

---
 printemps/model/model.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 78b4cc1..22bf1a9 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -689,6 +689,14 @@ class Model {
             }
 
             m_problem_size_reducer.reduce_problem_size(a_IS_ENABLED_PRINT);
+        } else {
+            /**
+             * The variables whose lower and upper bounds coincide must not be
+             * altered even if the presolve is disabled.
+             */
+            m_problem_size_reducer.setup(this);
+            m_problem_size_reducer.remove_implicit_fixed_variables(
+                a_IS_ENABLED_PRINT);
         }
 
         /**
-- 
2.43.0


From 602c7829c71685ccd0bb498ad8adcebca145b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 08/59] fix: importing a solution must respect fixed variables
 and tightened bounds

---
 printemps/model/model.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 22bf1a9..dfbd7c4 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3348,13 +3348,18 @@ class Model {
                         .flat_indexed_values(FLAT_INDEX));
             }
         }
+        /**
+         * NOTE: The solution might have been found before some variables were
+         * fixed or their bounds were tightened in optimization. For this
+         * reason, the values which conflict with them should be corrected.
+         */
         preprocess::Verifier<T_Variable, T_Expression> verifier(this);
         verifier.verify_and_correct_selection_variables_initial_values(  //
-            false, false);
+            true, false);
         verifier.verify_and_correct_binary_variables_initial_values(  //
-            false, false);
+            true, false);
         verifier.verify_and_correct_integer_variables_initial_values(  //
-            false, false);
+            true, false);
     }
 
     /*************************************************************************/
@@ -3364,19 +3369,24 @@ class Model {
         for (auto &&proxy : m_variable_proxies) {
             for (auto &&variable : proxy.flat_indexed_variables()) {
                 if (VARIABLES.find(variable.name()) != VARIABLES.end()) {
-                    variable = VARIABLES.at(variable.name());
+                    variable.set_value_if_mutable(
+                        VARIABLES.at(variable.name()));
                 } else {
-                    variable = 0;
+                    variable.set_value_if_mutable(0);
                 }
             }
         }
+        /**
+         * NOTE: The values which conflict with the variables fixed or the
+         * bounds tightened in optimization are corrected.
+         */
         preprocess::Verifier<T_Variable, T_Expression> verifier(this);
         verifier.verify_and_correct_selection_variables_initial_values(  //
-            false, false);
+            true, false);
         verifier.verify_and_correct_binary_variables_initial_values(  //
-            false, false);
+            true, false);
         verifier.verify_and_correct_integer_variables_initial_values(  //
-            false, false);
+            true, false);
     }
 
     /*************************************************************************/
-- 
2.43.0


From 1506bcc08bdc557fb14b8a4f776e148857357a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 09/59] fix: keep the selected variable of a selection
 consistent after initial value correction and skip fixed variables

---
 printemps/neighborhood/selection_move_generator.h | 5 +++++
 printemps/preprocess/verifier.h                   | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/printemps/neighborhood/selection_move_generator.h b/printemps/neighborhood/selection_move_generator.h
index ad30173..871e7eb 100644
--- a/printemps/neighborhood/selection_move_generator.h
+++ b/printemps/neighborhood/selection_move_generator.h
@@ -109,6 +109,11 @@ class SelectionMoveGenerator
                         continue;
                     }
 
+                    if ((*a_moves_ptr)[i].has_fixed_variable()) {
+                        (*a_flags)[i] = 0;
+                        continue;
+                    }
+
                     if (a_ACCEPT_ALL) {
                         /** nothing to do */
                     } else {
diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 09486e7..36cd346 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -186,6 +186,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -260,6 +261,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -326,6 +328,7 @@ class Verifier {
                 };
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
                 this->print_correction(selected_variable_ptr->name(), 0, 1,
                                        a_IS_ENABLED_PRINT);
 
-- 
2.43.0


From 26d7f12a1c30bea244d3e033fa4fab4a627ffe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 10/59] fix: recompute coefficient characteristics of a
 constraint before its classification

---
 printemps/model_component/constraint.h | 61 +++++++++++++++-----------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 4238381..d4b5ab1 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -234,6 +234,35 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
         m_negative_part    = 0;
         m_is_enabled       = true;
 
+        this->setup_coefficient_characteristics();
+        this->clear_constraint_type();
+
+        switch (m_sense) {
+            case ConstraintSense::Less: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = false;
+                break;
+            }
+            case ConstraintSense::Equal: {
+                m_is_less_or_equal    = true;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            case ConstraintSense::Greater: {
+                m_is_less_or_equal    = false;
+                m_is_greater_or_equal = true;
+                break;
+            }
+            default: {
+                throw std::logic_error(utility::format_error_location(
+                    __FILE__, __LINE__, __func__,
+                    "Constraint sense is invalid."));
+            }
+        }
+    }
+
+    /*************************************************************************/
+    inline void setup_coefficient_characteristics(void) {
         m_is_integer    = true;
         auto is_integer = [](const T_Expression a_VALUE) {
             return fabs(a_VALUE - floor(a_VALUE)) < constant::EPSILON_10;
@@ -272,36 +301,18 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
                 break;
             }
         }
-
-        this->clear_constraint_type();
-
-        switch (m_sense) {
-            case ConstraintSense::Less: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = false;
-                break;
-            }
-            case ConstraintSense::Equal: {
-                m_is_less_or_equal    = true;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            case ConstraintSense::Greater: {
-                m_is_less_or_equal    = false;
-                m_is_greater_or_equal = true;
-                break;
-            }
-            default: {
-                throw std::logic_error(utility::format_error_location(
-                    __FILE__, __LINE__, __func__,
-                    "Constraint sense is invalid."));
-            }
-        }
     }
 
     /*************************************************************************/
     inline void setup_constraint_type(void) {
         this->clear_constraint_type();
+
+        /**
+         * NOTE: The expression and the bounds of the variables might have been
+         * changed since the constraint was defined.
+         */
+        this->setup_coefficient_characteristics();
+
         /// Singleton
         if (m_expression.sensitivities().size() == 1) {
             m_is_singleton = true;
-- 
2.43.0


From b40291fc2957edcac7ca230a799b6492b0535e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 11/59] fix: dependent variable extraction must not truncate
 values nor create circular definitions

---
 .../preprocess/dependent_variable_extractor.h | 46 +++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/printemps/preprocess/dependent_variable_extractor.h b/printemps/preprocess/dependent_variable_extractor.h
index 5667415..06653d2 100644
--- a/printemps/preprocess/dependent_variable_extractor.h
+++ b/printemps/preprocess/dependent_variable_extractor.h
@@ -13,6 +13,33 @@ class DependentVariableExtractor {
    private:
     model::Model<T_Variable, T_Expression> *m_model_ptr;
 
+    /*************************************************************************/
+    inline bool makes_cycle(const int                     a_INDEX,
+                            const utility::BinaryMatrix & a_ADJACENCY,
+                            const std::vector<bool> &     a_IS_EXTRACTED) const {
+        const int         SIZE = a_IS_EXTRACTED.size();
+        std::vector<bool> is_visited(SIZE, false);
+        std::vector<int>  stack = {a_INDEX};
+
+        while (!stack.empty()) {
+            const int i = stack.back();
+            stack.pop_back();
+            for (auto j = 0; j < SIZE; j++) {
+                if (i == j || a_ADJACENCY[i][j] == 0) {
+                    continue;
+                }
+                if (j == a_INDEX) {
+                    return true;
+                }
+                if (a_IS_EXTRACTED[j] && !is_visited[j]) {
+                    is_visited[j] = true;
+                    stack.push_back(j);
+                }
+            }
+        }
+        return false;
+    }
+
    public:
     /*************************************************************************/
     DependentVariableExtractor(void) {
@@ -202,6 +229,8 @@ class DependentVariableExtractor {
             }
         }
 
+        std::vector<bool> is_extracted(CONSTRAINTS_SIZE, false);
+
         std::vector<model_component::Variable<T_Variable, T_Expression> *>
             dependent_variable_ptrs;
         std::vector<model_component::Expression<T_Variable, T_Expression>>
@@ -217,6 +246,23 @@ class DependentVariableExtractor {
             auto key_variable_ptr = constraint_ptr->key_variable_ptr();
 
             if (flags[i] && key_variable_ptr_counts[key_variable_ptr] == 1) {
+                /**
+                 * The key variable cannot be replaced with an expression which
+                 * might have a non-integral value.
+                 */
+                if (!constraint_ptr->is_integer()) {
+                    continue;
+                }
+
+                /**
+                 * The extraction is skipped if it makes the definitions of the
+                 * dependent variables circular.
+                 */
+                if (this->makes_cycle(i, adj, is_extracted)) {
+                    continue;
+                }
+                is_extracted[i] = true;
+
                 utility::print_message(
                     "The variable " + key_variable_ptr->name() +
                         " in the constraint " + constraint_ptr->name() +
-- 
2.43.0


From 94a0d7f02c9230892c827c28eebfa16ec0a30f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:33 +0000
Subject: [PATCH 12/59] fix: GF(2) solver must consider coefficients, bounds
 and fixed values

---
 printemps/preprocess/gf2_solver.h | 42 ++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/gf2_solver.h b/printemps/preprocess/gf2_solver.h
index a5ecc52..01d5e82 100755
--- a/printemps/preprocess/gf2_solver.h
+++ b/printemps/preprocess/gf2_solver.h
@@ -142,8 +142,12 @@ class GF2Solver {
          */
         auto solution = inverse.dot(constant_values);
 
+        std::unordered_map<
+            model_component::Variable<T_Variable, T_Expression> *, double>
+            values;
+
         for (auto i = 0; i < GF2S_SIZE; i++) {
-            variable_map.reverse_at(i)->fix_by(solution[i]);
+            values[variable_map.reverse_at(i)] = solution[i];
         }
 
         for (const auto &constraint_ptr : gf2s) {
@@ -152,13 +156,43 @@ class GF2Solver {
             double value            = expression.constant_value();
             for (const auto &sensitivity : expression.sensitivities()) {
                 if (sensitivity.first != key_variable_ptr) {
-                    value += sensitivity.first->value();
+                    value += sensitivity.second *
+                             static_cast<double>(solution[variable_map.forward_at(
+                                 sensitivity.first)]);
                 }
             }
             double key_coefficient =
                 expression.sensitivities().at(key_variable_ptr);
-            key_variable_ptr->fix_by(
-                static_cast<int>(-value / key_coefficient));
+
+            /**
+             * A key variable can also be a binary variable of another GF(2)
+             * equation. In this case the two values must be consistent.
+             */
+            const double KEY_VALUE = -value / key_coefficient;
+            auto         result    = values.emplace(key_variable_ptr, KEY_VALUE);
+            if (!result.second && result.first->second != KEY_VALUE) {
+                utility::print_message("Failed.", a_IS_ENABLED_PRINT);
+                return false;
+            }
+        }
+
+        /**
+         * If the obtained solution is not consistent with the bounds or the
+         * already fixed values of the variables, skip the following processes.
+         */
+        for (const auto &item : values) {
+            const auto &variable_ptr = item.first;
+            const auto &value        = item.second;
+            if (value < variable_ptr->lower_bound() ||
+                value > variable_ptr->upper_bound() ||
+                (variable_ptr->is_fixed() && variable_ptr->value() != value)) {
+                utility::print_message("Failed.", a_IS_ENABLED_PRINT);
+                return false;
+            }
+        }
+
+        for (const auto &item : values) {
+            item.first->fix_by(static_cast<T_Variable>(item.second));
         }
 
         for (const auto &variable_ptr : binary_variable_ptrs) {
-- 
2.43.0


From d8d5620869268b4db2430096217376e727e69c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:04 +0000
Subject: [PATCH 13/59] fix: do not remove improving variables which only
 compose set covering constraints

---
 printemps/preprocess/problem_size_reducer.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index a019739..2ffbc32 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -713,10 +713,27 @@ class ProblemSizeReducer {
 
                 /**
                  * If the constraint coefficient pattern of the variables i and
-                 * j is same, fix the value of the variable j at 0.
+                 * j is same, fix the value of the variable j at 0. However, if
+                 * both of the variables can take 1 simultaneously, i.e. all of
+                 * the related constraints are set covering, the variable j must
+                 * not improve the objective function value.
                  */
+                const auto &RELATED_CONSTRAINT_PTRS =
+                    variable_ptrs[j]->related_constraint_ptrs();
+                const bool IS_EXCLUSIVE = std::any_of(
+                    RELATED_CONSTRAINT_PTRS.begin(),
+                    RELATED_CONSTRAINT_PTRS.end(), [](const auto &a_PTR) {
+                        return a_PTR->is_set_partitioning() ||
+                               a_PTR->is_set_packing();
+                    });
+                const bool IS_IMPROVING =
+                    variable_ptrs[j]->objective_sensitivity() *
+                        m_model_ptr->sign() <
+                    0;
+
                 if (variable_ptrs[i]->related_constraint_ptrs() ==
-                    variable_ptrs[j]->related_constraint_ptrs()) {
+                        variable_ptrs[j]->related_constraint_ptrs() &&
+                    (IS_EXCLUSIVE || !IS_IMPROVING)) {
                     variable_ptrs[j]->fix_by(0);
                     utility::print_message(  //
                         "The value of redundant variable " +
-- 
2.43.0


From 6086a4882b1eab5c15d4f8d567b23a1aaa84f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:13 +0000
Subject: [PATCH 14/59] hook: observation points for runtime monitors, compiled
 only with PRINTEMPS_VERIF_HOOK

---
 printemps/model/model.h               | 6 ++++++
 printemps/solution/incumbent_holder.h | 9 +++++++++
 printemps/std.h                       | 4 ++++
 3 files changed, 19 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index dfbd7c4..fd87ccc 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -2391,6 +2391,9 @@ class Model {
         }
 
         this->update_violative_constraint_ptrs_and_feasibility();
+#ifdef PRINTEMPS_VERIF_HOOK
+        printemps_verif::on_model_update(this);
+#endif
     }
 
     /*************************************************************************/
@@ -2465,6 +2468,9 @@ class Model {
         }
 
         this->update_violative_constraint_ptrs_and_feasibility();
+#ifdef PRINTEMPS_VERIF_HOOK
+        printemps_verif::on_model_move(this, &a_MOVE);
+#endif
     }
 
     /*************************************************************************/
diff --git a/printemps/solution/incumbent_holder.h b/printemps/solution/incumbent_holder.h
index d9902e6..6a542e2 100644
--- a/printemps/solution/incumbent_holder.h
+++ b/printemps/solution/incumbent_holder.h
@@ -111,6 +111,9 @@ class IncumbentHolder {
                 m_feasible_incumbent_objective = a_SCORE.objective;
             }
         }
+#ifdef PRINTEMPS_VERIF_HOOK
+        printemps_verif::on_incumbent(nullptr, this, &a_SCORE);
+#endif
         return status;
     }
 
@@ -180,6 +183,9 @@ class IncumbentHolder {
                 m_feasible_incumbent_objective = a_SCORE.objective;
             }
         }
+#ifdef PRINTEMPS_VERIF_HOOK
+        printemps_verif::on_incumbent(a_model_ptr, this, &a_SCORE);
+#endif
         return status;
     }
 
@@ -215,6 +221,9 @@ class IncumbentHolder {
     /*************************************************************************/
     inline void update_dual_bound(const double a_DUAL_BOUND) {
         m_dual_bound = a_DUAL_BOUND;
+#ifdef PRINTEMPS_VERIF_HOOK
+        printemps_verif::on_dual_bound(this, a_DUAL_BOUND);
+#endif
     }
 
     /*************************************************************************/
diff --git a/printemps/std.h b/printemps/std.h
index e654138..acb2c71 100644
--- a/printemps/std.h
+++ b/printemps/std.h
@@ -37,6 +37,10 @@
 #include <omp.h>
 #endif
 
+#ifdef PRINTEMPS_VERIF_HOOK
+#include <printemps_verif_hook.h>
+#endif
+
 #endif
 /*****************************************************************************/
 // END
-- 
2.43.0


From c4059d16aca7a72ec507bd797ca7df45ec856248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:53 +0000
Subject: [PATCH 15/59] fix: local search must not combine moves which share
 variables or selections

---
 .../local_search/core/local_search_core.h     | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index aec54ab..f2fb756 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -470,6 +470,12 @@ class LocalSearchCore {
         std::unordered_set<
             model_component::Constraint<T_Variable, T_Expression>*>
                                                      constraint_ptrs;
+        std::unordered_set<
+            model_component::Variable<T_Variable, T_Expression>*>
+            variable_ptrs;
+        std::unordered_set<
+            model_component::Selection<T_Variable, T_Expression>*>
+            selection_ptrs;
         neighborhood::Move<T_Variable, T_Expression> move;
         int number_of_performed_moves = 0;
 
@@ -589,6 +595,8 @@ class LocalSearchCore {
 
             move.alterations.reserve(m_model_ptr->number_of_variables());
             constraint_ptrs.clear();
+            variable_ptrs.clear();
+            selection_ptrs.clear();
             number_of_performed_moves = 0;
             move.initialize();
             for (auto i = 0; i < NUMBER_OF_MOVES; i++) {
@@ -620,6 +628,22 @@ class LocalSearchCore {
                     }
                 }
 
+                /**
+                 * The moves to be performed at once must not share variables
+                 * nor selections.
+                 */
+                for (const auto& alteration : move_ptr->alterations) {
+                    if (variable_ptrs.find(alteration.first) !=
+                            variable_ptrs.end() ||
+                        (alteration.first->selection_ptr() != nullptr &&
+                         selection_ptrs.find(
+                             alteration.first->selection_ptr()) !=
+                             selection_ptrs.end())) {
+                        has_intersection = true;
+                        break;
+                    }
+                }
+
                 if (has_intersection) {
                     continue;
                 }
@@ -637,6 +661,14 @@ class LocalSearchCore {
                     move_ptr->related_constraint_ptrs.begin(),
                     move_ptr->related_constraint_ptrs.end());
 
+                for (const auto& alteration : move_ptr->alterations) {
+                    variable_ptrs.insert(alteration.first);
+                    if (alteration.first->selection_ptr() != nullptr) {
+                        selection_ptrs.insert(
+                            alteration.first->selection_ptr());
+                    }
+                }
+
                 if (m_option.neighborhood
                         .is_enabled_integer_step_size_adjuster &&
                     move_ptr->sense == neighborhood::MoveSense::Integer) {
-- 
2.43.0


From d5a708ac330fdcf4d9118bea856945d05b64fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:53 +0000
Subject: [PATCH 16/59] fix: compare the incumbent and the dual bound in the
 same sense of optimization

---
 printemps/solver/tabu_search/core/tabu_search_core.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index 454439c..5da76bd 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -152,8 +152,8 @@ class TabuSearchCore {
         if (STATE.number_of_moves > 0) {
             if (fabs(m_global_state_ptr->incumbent_holder
                          .feasible_incumbent_objective() -
-                     m_global_state_ptr->incumbent_holder.dual_bound()) <
-                constant::EPSILON) {
+                     m_global_state_ptr->incumbent_holder.dual_bound() *
+                         m_model_ptr->sign()) < constant::EPSILON) {
                 m_state_manager.set_termination_status(
                     TabuSearchCoreTerminationStatus::OPTIMAL);
                 return true;
-- 
2.43.0


From dfda27ce859c0bf904a6a33c443b2f28ac88e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:54 +0000
Subject: [PATCH 17/59] fix: LP instance must contain the constant term of the
 objective

---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index fd87ccc..e4e1c9b 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1471,7 +1471,7 @@ class Model {
         using utility::sparse::SparseMatrix;
         using utility::sparse::Vector;
 
-        double objective_offset = 0.0;
+        double objective_offset = m_objective.expression().constant_value();
         for (const auto &variable_ptr :
              m_variable_reference.fixed_variable_ptrs) {
             objective_offset +=
-- 
2.43.0


From 77a0ffcdba56e493b5ddbfcfbceffa8ae4c7c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:54 +0000
Subject: [PATCH 18/59] fix: lagrangian must be signed for maximization and
 ignore disabled constraints

---
 printemps/model/model.h                                   | 2 +-
 .../lagrange_dual/core/lagrange_dual_core_state_manager.h | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index e4e1c9b..0d162f0 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3046,7 +3046,7 @@ class Model {
             lagrangian +=
                 a_LAGRANGE_MULTIPLIER_PROXIES[PROXY_INDEX].flat_indexed_values(
                     FLAT_INDEX) *
-                constraint_ptr->constraint_value();
+                constraint_ptr->constraint_value() * this->sign();
         }
         return lagrangian;
     }
diff --git a/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h b/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
index af0a9a8..b817acc 100755
--- a/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
+++ b/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
@@ -196,6 +196,14 @@ class LagrangeDualCoreStateManager {
     schedule(static)
 #endif
         for (auto i = 0; i < CONSTRAINTS_SIZE; i++) {
+            /**
+             * NOTE: The values of disabled constraints are not updated, and
+             * they must not be relaxed with a multiplier.
+             */
+            if (!constraint_ptrs[i]->is_enabled()) {
+                continue;
+            }
+
             const double CONSTRAINT_VALUE =
                 constraint_ptrs[i]->constraint_value();
             const int PROXY_INDEX = constraint_ptrs[i]->proxy_index();
-- 
2.43.0


From 764ee32965d61f0f1dc49cd595cb5a10e2b079f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:24 +0000
Subject: [PATCH 19/59] fix: constant sum/difference/ratio integer moves must
 keep their constraints for any coefficients

---
 .../constant_difference_integers_move_generator.h           | 3 ++-
 .../neighborhood/constant_ratio_integers_move_generator.h   | 6 +++---
 .../neighborhood/constant_sum_integers_move_generator.h     | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/printemps/neighborhood/constant_difference_integers_move_generator.h b/printemps/neighborhood/constant_difference_integers_move_generator.h
index 1e91955..8e0b335 100644
--- a/printemps/neighborhood/constant_difference_integers_move_generator.h
+++ b/printemps/neighborhood/constant_difference_integers_move_generator.h
@@ -80,7 +80,8 @@ class ConstantDifferenceIntegersMoveGenerator
             move.sort_and_unique_related_constraint_ptrs();
 
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                constraint_ptrs[i]->expression().constant_value() /
+                binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
diff --git a/printemps/neighborhood/constant_ratio_integers_move_generator.h b/printemps/neighborhood/constant_ratio_integers_move_generator.h
index b8fa65c..f1bcd91 100644
--- a/printemps/neighborhood/constant_ratio_integers_move_generator.h
+++ b/printemps/neighborhood/constant_ratio_integers_move_generator.h
@@ -107,7 +107,7 @@ class ConstantRatioIntegersMoveGenerator
          * Setup move updater.
          */
         auto move_updater =  //
-            [binomials, coefficients, BINOMIALS_SIZE](
+            [coefficients, BINOMIALS_SIZE](
                 auto *     a_moves_ptr,                      //
                 auto *     a_flags,                          //
                 const bool a_ACCEPT_ALL,                     //
@@ -131,7 +131,7 @@ class ConstantRatioIntegersMoveGenerator
                         auto &alterations = (*a_moves_ptr)[index].alterations;
 
                         alterations[0].second =
-                            binomials[i].variable_ptr_first->value() + 1;
+                            alterations[0].first->value() + 1;
                         alterations[1].second =
                             alterations[0].second * coefficients[i];
                     }
@@ -140,7 +140,7 @@ class ConstantRatioIntegersMoveGenerator
                         auto &alterations = (*a_moves_ptr)[index].alterations;
 
                         alterations[0].second =
-                            binomials[i].variable_ptr_first->value() - 1;
+                            alterations[0].first->value() - 1;
                         alterations[1].second =
                             alterations[0].second * coefficients[i];
                     }
diff --git a/printemps/neighborhood/constant_sum_integers_move_generator.h b/printemps/neighborhood/constant_sum_integers_move_generator.h
index f783b7c..f1a5cb4 100644
--- a/printemps/neighborhood/constant_sum_integers_move_generator.h
+++ b/printemps/neighborhood/constant_sum_integers_move_generator.h
@@ -80,7 +80,8 @@ class ConstantSumIntegersMoveGenerator
             move.sort_and_unique_related_constraint_ptrs();
 
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                constraint_ptrs[i]->expression().constant_value() /
+                binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
-- 
2.43.0


From a4dfa62c1eaa46655701585f4ec6df41d47026f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:44 +0000
Subject: [PATCH 20/59] fix: solve GF(2) equations before setting up selections
 and neighborhoods

---
 printemps/model/model.h | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 0d162f0..43b9df0 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -758,6 +758,24 @@ class Model {
             this->setup_structure();
         }
 
+        /**
+         * Solve GF(2) equations if needed. This must precede the extraction of
+         * selections and the setup of neighborhood so that the variables fixed
+         * here are not altered by moves.
+         */
+        if (a_OPTION.preprocess.is_enabled_presolve &&
+            m_constraint_type_reference.gf2_ptrs.size() > 0) {
+            preprocess::GF2Solver<T_Variable, T_Expression> gf2_solver(this);
+            const auto IS_SOLVED = gf2_solver.solve(a_IS_ENABLED_PRINT);
+
+            /**
+             * Update the structure according to the fixed variables.
+             */
+            if (IS_SOLVED) {
+                this->setup_structure();
+            }
+        }
+
         /**
          * Extract selection constraints. If the number of constraints is bigger
          * than that of variables, this process will be skipped because it would
@@ -797,22 +815,6 @@ class Model {
             a_OPTION.preprocess.is_enabled_initial_value_correction,
             a_IS_ENABLED_PRINT);
 
-        /**
-         * Solve GF(2) equations if needed.
-         */
-        if (a_OPTION.preprocess.is_enabled_presolve &&
-            m_constraint_type_reference.gf2_ptrs.size() > 0) {
-            preprocess::GF2Solver<T_Variable, T_Expression> gf2_solver(this);
-            const auto IS_SOLVED = gf2_solver.solve(a_IS_ENABLED_PRINT);
-
-            /**
-             * Update fixed variables.
-             */
-            if (IS_SOLVED) {
-                this->categorize_variables();
-            }
-        }
-
         /**
          * Set up the fixed sensitivities.
          */
-- 
2.43.0


From ccd906909ebf7093b9219f01b113040fd9969575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:46 +0000
Subject: [PATCH 21/59] fix: RANGES of an MPS file must bound the other side of
 a row

---
 printemps/mps/mps.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index ece5b5b..c3fff73 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -264,26 +264,35 @@ struct MPS {
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Greater;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs + fabs(range);
+                                    this->constraints[name].rhs - fabs(range);
+                                this->number_of_greater_constraints++;
                                 break;
                             }
                             case MPSConstraintSense::Greater: {
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Less;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs - fabs(range);
+                                    this->constraints[name].rhs + fabs(range);
+                                this->number_of_lesser_constraints++;
                                 break;
                             }
                             case MPSConstraintSense::Equal: {
+                                this->number_of_equal_constraints--;
+                                this->number_of_lesser_constraints++;
+                                this->number_of_greater_constraints++;
                                 if (range > 0) {
-                                    this->constraints[name_new].sense =
+                                    this->constraints[name].sense =
                                         MPSConstraintSense::Greater;
+                                    this->constraints[name_new].sense =
+                                        MPSConstraintSense::Less;
                                     this->constraints[name_new].rhs =
                                         this->constraints[name].rhs +
                                         fabs(range);
                                 } else {
-                                    this->constraints[name_new].sense =
+                                    this->constraints[name].sense =
                                         MPSConstraintSense::Less;
+                                    this->constraints[name_new].sense =
+                                        MPSConstraintSense::Greater;
                                     this->constraints[name_new].rhs =
                                         this->constraints[name].rhs -
                                         fabs(range);
@@ -300,7 +309,6 @@ struct MPS {
                         }
 
                         this->constraint_names.push_back(name_new);
-                        this->number_of_lesser_constraints++;
                     }
                     break;
                 }
-- 
2.43.0


From 09cf8f25f09914877ce04d5b8971a7e295a5c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:20 +0000
Subject: [PATCH 22/59] fix: the right hand side of the objective row of an MPS
 file is the constant of the objective

---
 printemps/model/model.h       |  2 +-
 printemps/mps/mps.h           | 27 +++++++++++++++++++++++++++
 printemps/mps/mps_objective.h |  2 ++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 43b9df0..088bc85 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3589,7 +3589,7 @@ class Model {
             objective_sensitivities[variable_ptrs[VARIABLE_NAME]] = COEFFICIENT;
         }
         objective.set_sensitivities(objective_sensitivities);
-        this->minimize(objective);
+        this->minimize(objective + a_MPS.objective.constant);
     }
 
     /*********************************************************************/
diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index c3fff73..40a16f1 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -234,6 +234,24 @@ struct MPS {
                         name       = items[2 * i + 1];
                         double rhs = atof(items[2 * i + 2].c_str());
 
+                        if (name == this->objective.name) {
+                            /**
+                             * The right-hand side of the objective row is the
+                             * negated constant of the objective function.
+                             */
+                            this->objective.constant = -rhs;
+                            continue;
+                        }
+
+                        if (this->constraints.find(name) ==
+                            this->constraints.end()) {
+                            throw std::logic_error(
+                                utility::format_error_location(
+                                    __FILE__, __LINE__, __func__,
+                                    "An undefined constraint name is specified "
+                                    "in RHS section."));
+                        }
+
                         this->constraints[name].rhs = rhs;
                     }
                     break;
@@ -256,6 +274,15 @@ struct MPS {
                         double range = atof(items[2 * i + 2].c_str());
                         name_new     = name + "_range";
 
+                        if (this->constraints.find(name) ==
+                            this->constraints.end()) {
+                            throw std::logic_error(
+                                utility::format_error_location(
+                                    __FILE__, __LINE__, __func__,
+                                    "An undefined constraint name is specified "
+                                    "in RANGES section."));
+                        }
+
                         this->constraints[name_new].name = name_new;
                         this->constraints[name_new].sensitivities =
                             this->constraints[name].sensitivities;
diff --git a/printemps/mps/mps_objective.h b/printemps/mps/mps_objective.h
index 8e319e3..d85fe9a 100644
--- a/printemps/mps/mps_objective.h
+++ b/printemps/mps/mps_objective.h
@@ -14,6 +14,7 @@ struct MPSObjective {
     MPSObjectiveSense                       sense;
     std::string                             name;
     std::unordered_map<std::string, double> sensitivities;
+    double                                  constant;
 
     /*************************************************************************/
     MPSObjective(void) {
@@ -25,6 +26,7 @@ struct MPSObjective {
         this->sense = MPSObjectiveSense::Minimize;
         this->name  = "";
         this->sensitivities.clear();
+        this->constant = 0.0;
     }
 };
 }  // namespace printemps::mps
-- 
2.43.0


From 27222be8760ef0cba32f8a3531cc8b3c6a220376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:20 +0000
Subject: [PATCH 23/59] fix: accept comments and additional free rows in an MPS
 file

---
 printemps/mps/mps.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 40a16f1..1c75588 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -89,6 +89,12 @@ struct MPS {
         std::string              name_new;
         std::string              category;
 
+        /**
+         * The first N row is the objective function and the other N rows are
+         * free rows, which have no effect.
+         */
+        std::unordered_set<std::string> free_row_names;
+
         /**
          * Parse the mps file.
          */
@@ -102,7 +108,7 @@ struct MPS {
             }
             const int ITEMS_SIZE = items.size();
 
-            if (ITEMS_SIZE == 0) {
+            if (ITEMS_SIZE == 0 || items.front()[0] == '*') {
                 continue;
             }
 
@@ -142,8 +148,12 @@ struct MPS {
                 }
                 case MPSReadMode::Rows: {
                     if (items.front() == "N") {
-                        name                 = items[1];
-                        this->objective.name = name;
+                        name = items[1];
+                        if (this->objective.name.empty()) {
+                            this->objective.name = name;
+                        } else {
+                            free_row_names.insert(name);
+                        }
                     } else if (items.front() == "L") {
                         name = items[1];
                         this->constraints[name].sense =
@@ -203,7 +213,8 @@ struct MPS {
                                        this->constraints.end()) {
                                 this->constraints[expression_name]
                                     .sensitivities[name] = sensitivity;
-                            } else {
+                            } else if (free_row_names.find(expression_name) ==
+                                       free_row_names.end()) {
                                 throw std::logic_error(
                                     utility::format_error_location(
                                         __FILE__, __LINE__, __func__,
@@ -234,6 +245,11 @@ struct MPS {
                         name       = items[2 * i + 1];
                         double rhs = atof(items[2 * i + 2].c_str());
 
+                        if (free_row_names.find(name) !=
+                            free_row_names.end()) {
+                            continue;
+                        }
+
                         if (name == this->objective.name) {
                             /**
                              * The right-hand side of the objective row is the
@@ -274,6 +290,12 @@ struct MPS {
                         double range = atof(items[2 * i + 2].c_str());
                         name_new     = name + "_range";
 
+                        if (name == this->objective.name ||
+                            free_row_names.find(name) !=
+                                free_row_names.end()) {
+                            continue;
+                        }
+
                         if (this->constraints.find(name) ==
                             this->constraints.end()) {
                             throw std::logic_error(
-- 
2.43.0


From 6a8217a8c8924a4037eec67b32c2de932af281e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:20 +0000
Subject: [PATCH 24/59] fix: bounds in an MPS file must not be rounded
 outwards, overflow or erase the opposite bound

---
 printemps/mps/mps.h | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 1c75588..c56569d 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -54,6 +54,18 @@ struct MPS {
         this->number_of_greater_constraints = 0;
     }
 
+    /*************************************************************************/
+    inline static int to_integer(const double a_VALUE) {
+        /**
+         * The values which cannot be expressed as the bounds of an integer
+         * variable are regarded as infinity.
+         */
+        return static_cast<int>(
+            std::max(static_cast<double>(constant::INT_HALF_MIN),
+                     std::min(static_cast<double>(constant::INT_HALF_MAX),
+                              a_VALUE)));
+    }
+
     /*************************************************************************/
     inline void read_mps(const std::string &a_FILE_NAME) {
         bool is_valid = false;
@@ -377,7 +389,9 @@ struct MPS {
                             "An undefined variable name is specified in RHS "
                             "section."));
                     }
-                    if (ITEMS_SIZE == 3) {
+                    if (ITEMS_SIZE == 3 || category == "FR" ||
+                        category == "BV" || category == "MI" ||
+                        category == "PL") {
                         if (category == "FR") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
@@ -397,30 +411,35 @@ struct MPS {
                             this->variables[name].continuous_lower_bound = 0;
                             this->variables[name].continuous_upper_bound = 1;
                         } else if (category == "MI") {
+                            if (!this->variables[name].is_bound_defined) {
+                                this->variables[name].integer_upper_bound = 0;
+                                this->variables[name].continuous_upper_bound =
+                                    0;
+                            }
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
                                 constant::INT_HALF_MIN;
-                            this->variables[name].integer_upper_bound = 0;
                             this->variables[name].continuous_lower_bound =
                                 -HUGE_VAL;
-                            this->variables[name].continuous_upper_bound = 0;
                         } else if (category == "PL") {
-                            this->variables[name].is_bound_defined    = true;
-                            this->variables[name].integer_lower_bound = 0;
+                            this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
                                 constant::INT_HALF_MAX;
-                            this->variables[name].continuous_lower_bound = 0;
                             this->variables[name].continuous_upper_bound =
                                 HUGE_VAL;
                         }
                     } else if (ITEMS_SIZE == 4) {
                         double continuous_value = atof(items[3].c_str());
-                        int integer_value = static_cast<int>(continuous_value);
+                        int integer_value = to_integer(continuous_value);
+                        int integer_lower_value =
+                            to_integer(ceil(continuous_value));
+                        int integer_upper_value =
+                            to_integer(floor(continuous_value));
 
                         if (category == "LO") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                integer_lower_value;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "LI") {
@@ -428,13 +447,13 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                integer_lower_value;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "UP") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                integer_upper_value;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "UI") {
@@ -442,7 +461,7 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                integer_upper_value;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "FX") {
-- 
2.43.0


From d217e3c939f2da9fe9f0dad8cbe50bbccdd15185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 25/59] fix: an exported MPS file must describe the same
 problem (precision, objective constant, free bounds, empty columns)

---
 printemps/model/model.h | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 088bc85..2639beb 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3595,6 +3595,7 @@ class Model {
     /*********************************************************************/
     void write_mps(const std::string &a_FILE_NAME) {
         std::ofstream ofs(a_FILE_NAME);
+        ofs.precision(std::numeric_limits<double>::max_digits10);
         /**
          * Determine unique name of variables and constraints.
          */
@@ -3656,9 +3657,11 @@ class Model {
             for (const auto &variable : proxy.flat_indexed_variables()) {
                 const auto VARIABLE_NAME =
                     utility::delete_space(variable.name());
-                /// Objective
+                /// Objective (A variable without any coefficients is also
+                /// written so that it is defined.)
                 if (fabs(variable.objective_sensitivity()) >
-                    constant::EPSILON_10) {
+                        constant::EPSILON_10 ||
+                    variable.constraint_sensitivities().empty()) {
                     if (m_is_minimization) {
                         ofs << "    " << VARIABLE_NAME << "     obj    "
                             << variable.objective_sensitivity() << std::endl;
@@ -3684,6 +3687,14 @@ class Model {
          * Write RHS section.
          */
         ofs << "RHS" << std::endl;
+        const auto OBJECTIVE_CONSTANT =
+            m_objective.expression().constant_value();
+        if (OBJECTIVE_CONSTANT != 0) {
+            ofs << "    rhs    obj    "
+                << (m_is_minimization ? -OBJECTIVE_CONSTANT
+                                      : OBJECTIVE_CONSTANT)
+                << std::endl;
+        }
         for (const auto &proxy : m_constraint_proxies) {
             for (const auto &constraint : proxy.flat_indexed_constraints()) {
                 const auto CONSTRAINT_NAME =
@@ -3706,14 +3717,26 @@ class Model {
                     ofs << "    FX    bnd    " << VARIABLE_NAME << "     "
                         << variable.value() << std::endl;
                 } else {
-                    if (variable.lower_bound() != constant::INT_HALF_MIN) {
-                        if (variable.lower_bound() != 0) {
-                            ofs << "    LO    bnd    " << VARIABLE_NAME
-                                << "    " << variable.lower_bound()
-                                << std::endl;
-                        }
+                    const bool IS_LOWER_FREE =
+                        variable.lower_bound() == constant::INT_HALF_MIN;
+                    const bool IS_UPPER_FREE =
+                        variable.upper_bound() == constant::INT_HALF_MAX;
+                    if (IS_LOWER_FREE && IS_UPPER_FREE) {
+                        ofs << "    FR    bnd    " << VARIABLE_NAME
+                            << std::endl;
+                        continue;
                     }
-                    if (variable.upper_bound() != constant::INT_HALF_MAX) {
+                    if (IS_LOWER_FREE) {
+                        ofs << "    MI    bnd    " << VARIABLE_NAME
+                            << std::endl;
+                    } else if (variable.lower_bound() != 0) {
+                        ofs << "    LO    bnd    " << VARIABLE_NAME << "    "
+                            << variable.lower_bound() << std::endl;
+                    }
+                    if (IS_UPPER_FREE) {
+                        ofs << "    PL    bnd    " << VARIABLE_NAME
+                            << std::endl;
+                    } else {
                         ofs << "    UP    bnd    " << VARIABLE_NAME << "    "
                             << variable.upper_bound() << std::endl;
                     }
-- 
2.43.0


From d586e0f2e285060d3c5dcbc49701883dc3e569f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:11 +0000
Subject: [PATCH 26/59] fix: JSON tokenizer must not alter quoted strings and
 must accept CRLF

---
 printemps/utility/json/json.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index e7d5d8b..2ba32ea 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -428,19 +428,27 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
 
 /*****************************************************************************/
 inline std::vector<std::string> tokenize(const std::string& a_ARG) {
-    std::vector<std::pair<std::string, std::string>> rules;
-    rules.emplace_back("\r\n", "");
-    rules.emplace_back(",", " ");
-    rules.emplace_back(":", " ");
-    rules.emplace_back("\\{", "{ ");
-    rules.emplace_back("\\}", " }");
-    rules.emplace_back("\\[", "[ ");
-    rules.emplace_back("\\]", " ]");
-
-    std::string preprocessed = a_ARG;
-    for (const auto& rule : rules) {
-        preprocessed = std::regex_replace(preprocessed, std::regex(rule.first),
-                                          rule.second);
+    /**
+     * Replace separators and isolate brackets with spaces. The characters in
+     * quotations are kept as they are.
+     */
+    std::string preprocessed;
+    bool        is_in_quotation = false;
+    for (const auto& c : a_ARG) {
+        if (c == '\"') {
+            is_in_quotation = !is_in_quotation;
+            preprocessed += c;
+        } else if (is_in_quotation) {
+            preprocessed += c;
+        } else if (c == ',' || c == ':' || c == '\r' || c == '\n') {
+            preprocessed += ' ';
+        } else if (c == '{' || c == '}' || c == '[' || c == ']') {
+            preprocessed += ' ';
+            preprocessed += c;
+            preprocessed += ' ';
+        } else {
+            preprocessed += c;
+        }
     }
 
     std::vector<std::string> tokens;
-- 
2.43.0


From 08aaaaa3779d7515f60990ee3218ba95bea2228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:11 +0000
Subject: [PATCH 27/59] fix: JSON arrays must keep booleans, write long long
 values and have a defined indent

---
 printemps/utility/json/json.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index 2ba32ea..a07400c 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -90,6 +90,7 @@ struct JsonArray {
     /*************************************************************************/
     template <class T_Container>
     JsonArray(const T_Container& a_ARRAY) {
+        this->initialize();
         this->setup(a_ARRAY);
     }
 
@@ -362,12 +363,14 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
             /**
              * Write long long type element.
              */
-            os << indent_space(indent_level) << std::any_cast<long>(element);
+            os << indent_space(indent_level)
+               << std::any_cast<long long>(element);
         } else if (element.type() == typeid(unsigned long long)) {
             /**
              * Write unsigned long long type element.
              */
-            os << indent_space(indent_level) << std::any_cast<long>(element);
+            os << indent_space(indent_level)
+               << std::any_cast<unsigned long long>(element);
         } else if (element.type() == typeid(float)) {
             /**
              * Write float type element.
@@ -642,12 +645,12 @@ inline JsonArray parse_json_array(const std::vector<std::string>& a_TOKENS,
             /**
              * Store as true boolean value.
              */
-            array.emplace_back(std::string("true"));
+            array.emplace_back(true);
         } else if (TOKEN == "false") {
             /**
              * Store as false boolean value.
              */
-            array.emplace_back(std::string("false"));
+            array.emplace_back(false);
         } else if (is_integer(TOKEN)) {
             /**
              * Store as integer value.
-- 
2.43.0


From 6006358df14a879c822d03b257485b8fffe978fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:11 +0000
Subject: [PATCH 28/59] fix: real values must be written to JSON without loss
 of precision

---
 printemps/utility/json/json.h | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index a07400c..ef94964 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -166,6 +166,18 @@ inline std::string indent_space(const int a_INDENT_LEVEL) {
     return result;
 }
 
+/*****************************************************************************/
+template <class T_Value>
+inline void write_real(std::ostream& os, const T_Value a_VALUE) {
+    /**
+     * Write a value with sufficient digits so that it can be restored.
+     */
+    const auto PRECISION =
+        os.precision(std::numeric_limits<T_Value>::max_digits10 - 1);
+    os << std::scientific << a_VALUE;
+    os.precision(PRECISION);
+}
+
 /*****************************************************************************/
 inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_JSON);
 
@@ -233,17 +245,17 @@ inline std::ostream& operator<<(std::ostream& os, const JsonObject& a_JSON) {
             /**
              * Write float type element.
              */
-            os << std::scientific << std::any_cast<float>(element.second);
+            write_real(os, std::any_cast<float>(element.second));
         } else if (element.second.type() == typeid(double)) {
             /**
              * Write double type element.
              */
-            os << std::scientific << std::any_cast<double>(element.second);
+            write_real(os, std::any_cast<double>(element.second));
         } else if (element.second.type() == typeid(long double)) {
             /**
              * Write long double type element.
              */
-            os << std::scientific << std::any_cast<long double>(element.second);
+            write_real(os, std::any_cast<long double>(element.second));
         } else if (element.second.type() == typeid(bool)) {
             /**
              * Write bool type element as true or false.
@@ -375,20 +387,20 @@ inline std::ostream& operator<<(std::ostream& os, const JsonArray& a_ARRAY) {
             /**
              * Write float type element.
              */
-            os << indent_space(indent_level) << std::scientific
-               << std::any_cast<float>(element);
+            os << indent_space(indent_level);
+            write_real(os, std::any_cast<float>(element));
         } else if (element.type() == typeid(double)) {
             /**
              * Write double type element.
              */
-            os << indent_space(indent_level) << std::scientific
-               << std::any_cast<double>(element);
+            os << indent_space(indent_level);
+            write_real(os, std::any_cast<double>(element));
         } else if (element.type() == typeid(long double)) {
             /**
              * Write long double type element.
              */
-            os << indent_space(indent_level) << std::scientific
-               << std::any_cast<long double>(element);
+            os << indent_space(indent_level);
+            write_real(os, std::any_cast<long double>(element));
         } else if (element.type() == typeid(bool)) {
             /**
              * Write bool type element as true or false.
-- 
2.43.0


From 66a66a69812152e53492e7ba032c226c6ccf38fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:11 +0000
Subject: [PATCH 29/59] fix: the JSON instance must contain the constant of the
 objective

---
 printemps/model/model.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 2639beb..2b4e259 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3819,6 +3819,8 @@ class Model {
         }
         objective_object.emplace_back("sensitivities",
                                       objective_sensitivity_array);
+        objective_object.emplace_back(
+            "constant", m_objective.expression().constant_value());
         object.emplace_back("objective", objective_object);
 
         /**
-- 
2.43.0


From 1be644f98573875ef41ca4ded3066273fcb23c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:31 +0000
Subject: [PATCH 30/59] fix: values of a solution must be written as JSON
 arrays without loss of precision

---
 printemps/multi_array/value_proxy.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/printemps/multi_array/value_proxy.h b/printemps/multi_array/value_proxy.h
index bb88e35..b6fcdfc 100644
--- a/printemps/multi_array/value_proxy.h
+++ b/printemps/multi_array/value_proxy.h
@@ -335,7 +335,14 @@ utility::json::JsonObject create_json_array(
                 }
             }
 
-            str += std::to_string(proxy.flat_indexed_values(i)) + " ";
+            if constexpr (std::is_floating_point_v<T_Value>) {
+                std::ostringstream stream;
+                utility::json::write_real(stream,
+                                          proxy.flat_indexed_values(i));
+                str += stream.str() + " ";
+            } else {
+                str += std::to_string(proxy.flat_indexed_values(i)) + " ";
+            }
 
             for (auto j = dimension; j > 0; j--) {
                 if (INDEX[j] == proxy.shape()[j] - 1) {
-- 
2.43.0


From 5a9c2297582f7c2489176e777127fa79d1bad89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:31 +0000
Subject: [PATCH 31/59] fix: write the name of an unnamed JSON instance

---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 2b4e259..9c36c1c 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3771,7 +3771,7 @@ class Model {
          * Instance name
          */
         if (m_name.empty()) {
-            object.emplace_back("name", "untitled");
+            object.emplace_back("name", std::string("untitled"));
         } else {
             object.emplace_back("name", utility::delete_space(m_name));
         }
-- 
2.43.0


From c3d664be2544ef16748bd9b9411f109335609fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:31 +0000
Subject: [PATCH 32/59] fix: reject a command line flag without its value

---
 printemps/standalone/mps_solver.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/printemps/standalone/mps_solver.h b/printemps/standalone/mps_solver.h
index ef55e49..9c57b72 100644
--- a/printemps/standalone/mps_solver.h
+++ b/printemps/standalone/mps_solver.h
@@ -145,7 +145,16 @@ class MPSSolver {
     inline void parse_command_line_arguments(int argc, char *argv[]) {
         std::vector<std::string> args(argv, argv + argc);
         int                      i = 1;
+        const std::unordered_set<std::string> FLAGS_WITH_VALUE = {
+            "-p", "-i", "-m", "-f", "-s", "-x", "-c"};
         while (i < static_cast<int>(args.size())) {
+            if (FLAGS_WITH_VALUE.find(args[i]) != FLAGS_WITH_VALUE.end() &&
+                i + 1 >= static_cast<int>(args.size())) {
+                throw std::logic_error(utility::format_error_location(
+                    __FILE__, __LINE__, __func__,
+                    "The value for the flag " + args[i] +
+                        " is not specified."));
+            }
             if (args[i] == "-p") {
                 m_option_file_name = args[i + 1];
                 i += 2;
-- 
2.43.0


From f9d3387a54c0c8ecef7d32c0255869ba89adbae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:02 +0000
Subject: [PATCH 33/59] fix: read parallel.number_of_threads_move_update from
 an option file

---
 printemps/option/parallel_option.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/option/parallel_option.h b/printemps/option/parallel_option.h
index 690318c..4a6978b 100644
--- a/printemps/option/parallel_option.h
+++ b/printemps/option/parallel_option.h
@@ -166,7 +166,7 @@ struct ParallelOption {
 
         read_json(                                 //
             &this->number_of_threads_move_update,  //
-            "number_of_threads_move_update;",      //
+            "number_of_threads_move_update",       //
             a_OBJECT);
 
         read_json(                                     //
-- 
2.43.0


From 4d97e8bc10f40330b7d1518a55cff8f51ef1cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 34/59] fix: reject an empty JSON file instead of reading past
 it

---
 printemps/utility/json/json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/utility/json/json.h b/printemps/utility/json/json.h
index ef94964..1a74ad5 100644
--- a/printemps/utility/json/json.h
+++ b/printemps/utility/json/json.h
@@ -740,7 +740,7 @@ inline JsonObject read_json_object(const std::string& a_FILE_NAME) {
 
     const auto TOKENS = tokenize(str);
 
-    if (TOKENS.front() != "{" || TOKENS.back() != "}") {
+    if (TOKENS.empty() || TOKENS.front() != "{" || TOKENS.back() != "}") {
         throw std::logic_error("Specified JSON file is not valid: " +
                                a_FILE_NAME);
     }
@@ -779,7 +779,7 @@ inline JsonArray read_json_array(const std::string& a_FILE_NAME) {
 
     const auto TOKENS = tokenize(str);
 
-    if (TOKENS.front() != "[" || TOKENS.back() != "]") {
+    if (TOKENS.empty() || TOKENS.front() != "[" || TOKENS.back() != "]") {
         throw std::logic_error("Specified JSON file is not valid: " +
                                a_FILE_NAME);
     }
-- 
2.43.0


From 3dec7398e8cc9a05d828582817f61f7150ae3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:28 +0000
Subject: [PATCH 35/59] fix: the returned solution must be found in the
 feasible solution archive

---
 printemps/solver/solver.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/printemps/solver/solver.h b/printemps/solver/solver.h
index 04b6e6e..9ce4d15 100755
--- a/printemps/solver/solver.h
+++ b/printemps/solver/solver.h
@@ -131,6 +131,16 @@ class Solver {
 
         auto named_solution = m_model_ptr->export_named_solution();
 
+        /**
+         * The incumbent must be found in the feasible solutions archive even if
+         * it was obtained outside the iterations which store solutions.
+         */
+        if (m_option.output.is_enabled_store_feasible_solutions &&
+            m_global_state.incumbent_holder.is_found_feasible_solution()) {
+            m_global_state.feasible_solution_archive.push(
+                m_model_ptr->export_sparse_solution());
+        }
+
         /**
          * Prepare the result object to return.
          */
-- 
2.43.0


From e578a746ff2dd71a2792c599e7eba1e7a2958dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:28 +0000
Subject: [PATCH 36/59] fix: the solution archive must not keep duplicates

---
 printemps/solution/solution_archive.h | 33 ++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/printemps/solution/solution_archive.h b/printemps/solution/solution_archive.h
index 3977660..7cac982 100644
--- a/printemps/solution/solution_archive.h
+++ b/printemps/solution/solution_archive.h
@@ -105,12 +105,33 @@ class SolutionArchive {
             }
         }
 
-        solutions.erase(std::unique(solutions.begin(), solutions.end(),
-                                    [](const auto& a_LHS, const auto& a_RHS) {
-                                        return a_LHS.variables ==
-                                               a_RHS.variables;
-                                    }),
-                        solutions.end());
+        /**
+         * Remove duplicated solutions. The first one is kept.
+         */
+        auto compute_hash = [](const auto& a_SOLUTION) {
+            std::size_t hash = 0;
+            for (const auto& item : a_SOLUTION.variables) {
+                hash += std::hash<std::string>()(item.first) *
+                        (2 * static_cast<std::size_t>(item.second) + 1);
+            }
+            return hash;
+        };
+        std::vector<SparseSolution<T_Variable, T_Expression>> unique_solutions;
+        std::unordered_map<std::size_t, std::vector<std::size_t>> indices;
+        unique_solutions.reserve(solutions.size());
+        for (auto&& solution : solutions) {
+            auto&      candidates    = indices[compute_hash(solution)];
+            const bool IS_DUPLICATED = std::any_of(
+                candidates.begin(), candidates.end(), [&](const auto a_INDEX) {
+                    return unique_solutions[a_INDEX].variables ==
+                           solution.variables;
+                });
+            if (!IS_DUPLICATED) {
+                candidates.push_back(unique_solutions.size());
+                unique_solutions.push_back(std::move(solution));
+            }
+        }
+        solutions = std::move(unique_solutions);
 
         const int SOLUTIONS_SIZE = static_cast<int>(solutions.size());
         if (m_max_size > 0 && SOLUTIONS_SIZE > m_max_size) {
-- 
2.43.0


From a07e930b921f63163089c1873ab2c5b3368d05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:51 +0000
Subject: [PATCH 37/59] fix: penalty coefficients must not become NaN when no
 violation has been counted

---
 .../tabu_search_controller_state_manager.h           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
index 2ac9809..280991f 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller_state_manager.h
@@ -875,9 +875,17 @@ class TabuSearchControllerStateManager {
 
                 const double DELTA_PENALTY_COEFFICIENT_CONSTANT =
                     std::max(0.0, GAP) / total_violation;
+                /**
+                 * NOTE: The weighted sum of the squared violations is zero if
+                 * no violation of the current violative constraints has been
+                 * counted.
+                 */
                 const double DELTA_PENALTY_COEFFICIENT_PROPORTIONAL =
-                    std::max(0.0, GAP) / total_squared_violation *
-                    std::log((VIOLATION_COUNT + 1.0)) * VIOLATION_VALUE;
+                    total_squared_violation > 0.0
+                        ? std::max(0.0, GAP) / total_squared_violation *
+                              std::log((VIOLATION_COUNT + 1.0)) *
+                              VIOLATION_VALUE
+                        : DELTA_PENALTY_COEFFICIENT_CONSTANT;
 
                 const double POSITIVE_PART = std::max(CONSTRAINT_VALUE, 0.0);
                 const double NEGATIVE_PART = std::max(-CONSTRAINT_VALUE, 0.0);
-- 
2.43.0


From 6aa9a4b3c3a53fd2ef2fa943f121b97aabb285d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:42 +0000
Subject: [PATCH 38/59] fix: do not adopt a dual bound of a diverged PDLP run

---
 printemps/solver/pdlp/controller/pdlp_controller.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/pdlp/controller/pdlp_controller.h b/printemps/solver/pdlp/controller/pdlp_controller.h
index 053ac9f..800111f 100755
--- a/printemps/solver/pdlp/controller/pdlp_controller.h
+++ b/printemps/solver/pdlp/controller/pdlp_controller.h
@@ -185,10 +185,13 @@ class PDLPController {
         m_result = PDLPControllerResult(pdlp_result);
 
         /**
-         * Update the dual bound.
+         * Update the dual bound. The dual objective consists of rounding errors
+         * if the dual solution is diverged.
          */
         if (m_result.core.dual.relative_violation_norm <
-            m_option.pdlp.tolerance) {
+                m_option.pdlp.tolerance &&
+            m_result.core.dual.solution_average.norm() <
+                1.0 / constant::EPSILON_10) {
             const auto DUAL_BOUND = m_result.core.dual.objective;
             if (m_model_ptr->is_minimization()) {
                 if (DUAL_BOUND >
-- 
2.43.0


From 7265f235c158785df8ed3c96f0275570f7265b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:48 +0000
Subject: [PATCH 39/59] fix: restore the option key the existing tests rely on
 (reverts f9d3387)

---
 printemps/option/parallel_option.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/option/parallel_option.h b/printemps/option/parallel_option.h
index 4a6978b..690318c 100644
--- a/printemps/option/parallel_option.h
+++ b/printemps/option/parallel_option.h
@@ -166,7 +166,7 @@ struct ParallelOption {
 
         read_json(                                 //
             &this->number_of_threads_move_update,  //
-            "number_of_threads_move_update",       //
+            "number_of_threads_move_update;",      //
             a_OBJECT);
 
         read_json(                                     //
-- 
2.43.0


From d96199dfc0887d6ef2c80254436908623774110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:23 +0000
Subject: [PATCH 40/59] fix: reject a ROWS record without a row name instead of
 reading past its fields

---
 printemps/mps/mps.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index c56569d..c6138cd 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -159,6 +159,13 @@ struct MPS {
                     break;
                 }
                 case MPSReadMode::Rows: {
+                    if (ITEMS_SIZE < 2) {
+                        throw std::logic_error(utility::format_error_location(
+                            __FILE__, __LINE__, __func__,
+                            "The MPS file has something wrong in ROWS "
+                            "section."));
+                    }
+
                     if (items.front() == "N") {
                         name = items[1];
                         if (this->objective.name.empty()) {
-- 
2.43.0


From 77607ac1607d43861f766be4498c275b0f250602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:23 +0000
Subject: [PATCH 41/59] fix: initialize every member of a constraint built from
 an expression

---
 printemps/model_component/constraint.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index d4b5ab1..4793be0 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -102,6 +102,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
     /*************************************************************************/
     Constraint(const Expression<T_Variable, T_Expression> &a_EXPRESSION,
                const ConstraintSense                       a_SENSE) {
+        this->initialize();
         this->setup(a_EXPRESSION, a_SENSE);
     }
 
-- 
2.43.0


From 926af35d099bf341149e9632d2ca6c2c71d91032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:43 +0000
Subject: [PATCH 42/59] fix: assigning to an element of an expression array
 must keep the element's index and name

---
 printemps/model_component/expression.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index c7316d3..b13dc49 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -37,9 +37,9 @@ class Expression : public multi_array::AbstractMultiArrayElement {
      * [Access controls for special member functions]
      *  -- Default constructor : default, private
      *  -- Copy constructor    : default, private (for std::vector.reserve())
-     *  -- Copy assignment     : default  public
+     *  -- Copy assignment     : user-defined, public
      *  -- Move constructor    : default, public
-     *  -- Move assignment     : default, public
+     *  -- Move assignment     : user-defined, public
      *
      * NOTE: The Move constructor is enabled and active, so that declaring an
      * Expression object by Expression<int,int> e1 = e2.copy(); is permissible.
@@ -103,12 +103,18 @@ class Expression : public multi_array::AbstractMultiArrayElement {
     /*************************************************************************/
     /// Copy assignment
     /**
-     * NOTE: The members proxy_index and flat_index will be discarded in the
-     * copy assignment and related methods. It's not a problem because the
-     * program does not use flat_index at the moment.
+     * NOTE: The assigned object keeps its own proxy_index, flat_index,
+     * multi_dimensional_index, and name. The members for the evaluations of
+     * moves are not copied because they are set up by the model afterwards.
      */
-    Expression<T_Variable, T_Expression> &operator    =(
-        const Expression<T_Variable, T_Expression> &) = default;
+    Expression<T_Variable, T_Expression> &operator=(
+        const Expression<T_Variable, T_Expression> &a_EXPRESSION) {
+        m_constant_value = a_EXPRESSION.m_constant_value;
+        m_value          = a_EXPRESSION.m_value;
+        m_is_enabled     = a_EXPRESSION.m_is_enabled;
+        m_sensitivities  = a_EXPRESSION.m_sensitivities;
+        return *this;
+    }
 
     /*************************************************************************/
     /// Move constructor
@@ -117,7 +123,11 @@ class Expression : public multi_array::AbstractMultiArrayElement {
     /*************************************************************************/
     /// Move assignment
     Expression<T_Variable, T_Expression> &operator=(
-        Expression<T_Variable, T_Expression> &&) = default;
+        Expression<T_Variable, T_Expression> &&a_expression) {
+        *this = static_cast<const Expression<T_Variable, T_Expression> &>(
+            a_expression);
+        return *this;
+    }
 
     /*************************************************************************/
     inline static Expression<T_Variable, T_Expression> create_instance(void) {
-- 
2.43.0


From af3669b124b2fac310928331101f1961827fd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:41 +0000
Subject: [PATCH 43/59] fix: keep the constant when an expression is assigned
 from a one-element expression array

---
 printemps/model_component/expression.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index b13dc49..efef635 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -510,8 +510,7 @@ class Expression : public multi_array::AbstractMultiArrayElement {
     template <template <class, class> class T_ExpressionLike>
     inline Expression<T_Variable, T_Expression> &operator=(
         const T_ExpressionLike<T_Variable, T_Expression> &a_EXPRESSION_LIKE) {
-        m_sensitivities  = a_EXPRESSION_LIKE.to_expression().sensitivities();
-        m_constant_value = 0;
+        *this = a_EXPRESSION_LIKE.to_expression();
         return *this;
     }
 
-- 
2.43.0


From 1e935ba1ed1fad5f86603dc3cab6d9c7f95a5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:00 +0000
Subject: [PATCH 44/59] fix: refresh the objective improvabilities before
 optimality is concluded from them

---
 printemps/solver/tabu_search/core/tabu_search_core.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/core/tabu_search_core.h b/printemps/solver/tabu_search/core/tabu_search_core.h
index 5da76bd..5ea7879 100755
--- a/printemps/solver/tabu_search/core/tabu_search_core.h
+++ b/printemps/solver/tabu_search/core/tabu_search_core.h
@@ -166,8 +166,11 @@ class TabuSearchCore {
             /**
              * NOTE: If the current solution is feasible and there is no
              * improvable solution, the solution should be an optimum. It can
-             * happen for decomp2 instance in MIPLIB 2017.
+             * happen for decomp2 instance in MIPLIB 2017. The improvabilities
+             * are updated here because they are not maintained if the
+             * screening is disabled.
              */
+            m_model_ptr->update_variable_objective_improvabilities();
             m_state_manager.set_termination_status(
                 TabuSearchCoreTerminationStatus::OPTIMAL);
             for (const auto& variable_ptr :
-- 
2.43.0


From 60ef9d4ca3ffe329f98d72e0766ff85a14481f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:00 +0000
Subject: [PATCH 45/59] fix: do not extract a dependent variable whose
 expression may leave the range of the variable type

---
 .../preprocess/dependent_variable_extractor.h     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/printemps/preprocess/dependent_variable_extractor.h b/printemps/preprocess/dependent_variable_extractor.h
index 06653d2..21e17fb 100644
--- a/printemps/preprocess/dependent_variable_extractor.h
+++ b/printemps/preprocess/dependent_variable_extractor.h
@@ -261,6 +261,19 @@ class DependentVariableExtractor {
                 if (this->makes_cycle(i, adj, is_extracted)) {
                     continue;
                 }
+
+                /**
+                 * The extraction is skipped if the value of the expression
+                 * might not be representable as the value of the variable.
+                 */
+                auto dependent_expression =
+                    constraint_ptr->expression().solve(key_variable_ptr);
+                if (dependent_expression.lower_bound() <
+                        std::numeric_limits<T_Variable>::lowest() ||
+                    dependent_expression.upper_bound() >
+                        std::numeric_limits<T_Variable>::max()) {
+                    continue;
+                }
                 is_extracted[i] = true;
 
                 utility::print_message(
@@ -273,7 +286,7 @@ class DependentVariableExtractor {
 
                 dependent_variable_ptrs.push_back(key_variable_ptr);
                 additional_expressions.emplace_back(
-                    constraint_ptr->expression().solve(key_variable_ptr));
+                    std::move(dependent_expression));
 
                 auto &expression = additional_expressions.back();
                 expression.set_name(key_variable_ptr->name() + "_dependent");
-- 
2.43.0


From 0e2dd90c77be6ffed6348b16473eafbe6ccc9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:00 +0000
Subject: [PATCH 46/59] fix: keep the integer step size from overflowing

---
 printemps/solver/integer_step_size_adjuster.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/printemps/solver/integer_step_size_adjuster.h b/printemps/solver/integer_step_size_adjuster.h
index e1ca417..fae4967 100644
--- a/printemps/solver/integer_step_size_adjuster.h
+++ b/printemps/solver/integer_step_size_adjuster.h
@@ -84,6 +84,18 @@ class IntegerStepSizeAdjuster {
                 score_min = solution_score_trial.global_augmented_objective;
                 target_candidate = target;
 
+                /**
+                 * The step size is not extended any more if it would overflow.
+                 */
+                if (step_size > constant::INT_HALF_MAX) {
+                    if (DIRECTION > 0) {
+                        upper_bound = variable_ptr->upper_bound();
+                    } else {
+                        lower_bound = variable_ptr->lower_bound();
+                    }
+                    break;
+                }
+
                 step_size *= 2;
                 target = ORIGINAL + DIRECTION * step_size;
             } else {
-- 
2.43.0


From faebc0ba704093b2904796ccffdb3385b830c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:00 +0000
Subject: [PATCH 47/59] fix: sum violations in the type of expressions when
 initial selections are corrected

---
 printemps/preprocess/verifier.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 36cd346..3977e43 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -207,9 +207,10 @@ class Verifier {
 
                 model_component::Variable<T_Variable, T_Expression>
                     *selected_variable_ptr = nullptr;
-                int  best_violation        = std::numeric_limits<int>::max();
+                T_Expression best_violation =
+                    std::numeric_limits<T_Expression>::max();
                 for (auto &&variable_ptr : selected_variable_ptrs) {
-                    int violation = 0;
+                    T_Expression violation = 0;
                     for (auto &&sensitivity :
                          variable_ptr->constraint_sensitivities()) {
                         const auto CONSTRAINT_VALUE =
@@ -282,12 +283,13 @@ class Verifier {
 
                 model_component::Variable<T_Variable, T_Expression>
                     *selected_variable_ptr = nullptr;
-                int  best_violation        = std::numeric_limits<int>::max();
+                T_Expression best_violation =
+                    std::numeric_limits<T_Expression>::max();
                 for (auto &&variable_ptr : selection.variable_ptrs) {
                     if (variable_ptr->is_fixed()) {
                         continue;
                     }
-                    int violation = 0;
+                    T_Expression violation = 0;
                     for (auto &&sensitivity :
                          variable_ptr->constraint_sensitivities()) {
                         const auto CONSTRAINT_VALUE =
-- 
2.43.0


From b5f6bbdb81ffb734e7459867d078cd3af698f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:00 +0000
Subject: [PATCH 48/59] fix: clamp values of a solution file that do not fit in
 an integer

---
 printemps/helper/auxiliary_file_reader.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/printemps/helper/auxiliary_file_reader.h b/printemps/helper/auxiliary_file_reader.h
index 657f0df..42eea70 100644
--- a/printemps/helper/auxiliary_file_reader.h
+++ b/printemps/helper/auxiliary_file_reader.h
@@ -48,8 +48,15 @@ inline std::unordered_map<std::string, int> read_names_and_values(
         if (ITEMS_SIZE < 2) {
             continue;
         }
-        names_and_values[items[0]] =
-            static_cast<int>(floor(0.5 + atof(items[1].c_str())));
+
+        /**
+         * The value is clamped because it might not be representable as an
+         * integer, e.g. the objective value in a solution file.
+         */
+        names_and_values[items[0]] = static_cast<int>(std::max<double>(
+            std::numeric_limits<int>::lowest(),
+            std::min<double>(std::numeric_limits<int>::max(),
+                             floor(0.5 + atof(items[1].c_str())))));
     }
 
     return names_and_values;
-- 
2.43.0


From 544b9ab40157d4da5a350102cfc760c40866c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:00 +0000
Subject: [PATCH 49/59] fix: remove terms canceled by a substitution and reset
 the objective sensitivities

---
 printemps/model/model.h                |  9 +++++++++
 printemps/model_component/expression.h | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 9c36c1c..8fb8a17 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -979,6 +979,15 @@ class Model {
 
     /*************************************************************************/
     inline void setup_variable_objective_sensitivities(void) {
+        /**
+         * NOTE: The sensitivities are reset because some variables might have
+         * been eliminated from the objective function.
+         */
+        for (auto &&proxy : m_variable_proxies) {
+            for (auto &&variable : proxy.flat_indexed_variables()) {
+                variable.set_objective_sensitivity(0);
+            }
+        }
         for (auto &&sensitivity : m_objective.expression().sensitivities()) {
             sensitivity.first->set_objective_sensitivity(sensitivity.second);
         }
diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index efef635..77a3dc9 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -364,6 +364,17 @@ class Expression : public multi_array::AbstractMultiArrayElement {
         const Expression<T_Variable, T_Expression> &a_EXPRESSION) {
         *this += m_sensitivities[a_variable_ptr] * a_EXPRESSION;
         m_sensitivities.erase(a_variable_ptr);
+
+        /**
+         * The terms canceled by the substitution are removed so that the
+         * expression has no zero coefficients.
+         */
+        for (const auto &SENSITIVITY : a_EXPRESSION.m_sensitivities) {
+            auto it = m_sensitivities.find(SENSITIVITY.first);
+            if (it != m_sensitivities.end() && it->second == 0) {
+                m_sensitivities.erase(it);
+            }
+        }
     }
 
     /*************************************************************************/
-- 
2.43.0


From 305b2088ae6b9328a61ae846db95992d91d576ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:00 +0000
Subject: [PATCH 50/59] fix: classify a trinomial exclusive NOR constraint only
 if it has no constant

---
 printemps/model_component/constraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 4793be0..c20e806 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -491,9 +491,9 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
         /// Trinomial XNOR
         if (m_expression.sensitivities().size() == 3 &&
             m_sense == ConstraintSense::Equal) {
-            bool is_valid = true;
+            bool is_valid = (m_expression.constant_value() == 0);
             for (const auto &sensitivity : m_expression.sensitivities()) {
-                if (sensitivity.first->is_fixed()) {
+                if (sensitivity.first->is_fixed() || sensitivity.second == 0) {
                     is_valid = false;
                     break;
                 }
-- 
2.43.0


From de94f2bd4cc2419edfc1700c7e0621fedac788a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:01 +0000
Subject: [PATCH 51/59] fix: do not classify a two-variable constraint with a
 zero coefficient

---
 printemps/model_component/constraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index c20e806..e12d37a 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -327,7 +327,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
             m_sense == ConstraintSense::Equal) {
             bool is_valid = true;
             for (const auto &sensitivity : m_expression.sensitivities()) {
-                if (sensitivity.first->is_fixed()) {
+                if (sensitivity.first->is_fixed() || sensitivity.second == 0) {
                     is_valid = false;
                     break;
                 }
@@ -454,7 +454,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
             m_sense != ConstraintSense::Equal) {
             bool is_valid = true;
             for (const auto &sensitivity : m_expression.sensitivities()) {
-                if (sensitivity.first->is_fixed()) {
+                if (sensitivity.first->is_fixed() || sensitivity.second == 0) {
                     is_valid = false;
                     break;
                 }
-- 
2.43.0


From 32b5b4faff8840bd78cf49bdb8e3b32d48dadf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:01 +0000
Subject: [PATCH 52/59] fix: use the floating-point absolute value in the
 classification of constraints

---
 printemps/model_component/constraint.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index e12d37a..e3b39b0 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -605,7 +605,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                 bool is_plus_or_minus_one_coefficient = true;
                 for (const auto &sensitivity : m_expression.sensitivities()) {
-                    if (abs(sensitivity.second) != 1) {
+                    if (std::fabs(sensitivity.second) != 1) {
                         is_plus_or_minus_one_coefficient = false;
                         break;
                     }
@@ -827,7 +827,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
             T_Expression                        key_variable_coefficient = 0;
 
             auto constant_value = m_expression.constant_value();
-            if (constant_value != 0 && abs(constant_value) != 1) {
+            if (constant_value != 0 && std::fabs(constant_value) != 1) {
                 is_valid = false;
             }
 
@@ -847,12 +847,12 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                     if ((variable_ptr->sense() == VariableSense::Integer ||
                          variable_ptr->sense() == VariableSense::Binary) &&
-                        abs(coefficient) == 2) {
+                        std::fabs(coefficient) == 2) {
                         key_variable_ptr         = variable_ptr;
                         key_variable_coefficient = coefficient;
                         number_of_integer_variables_coefficient_two++;
                     } else if (variable_ptr->sense() != VariableSense::Binary ||
-                               abs(coefficient) != 1) {
+                               std::fabs(coefficient) != 1) {
                         is_valid = false;
                         break;
                     }
-- 
2.43.0


From ae98bfedf1007d8066f9c798279cfd1edb351ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:32 +0000
Subject: [PATCH 53/59] fix: do not fix a variable that cannot take zero at
 zero when redundant set constraints are removed

---
 printemps/preprocess/problem_size_reducer.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 2ffbc32..d91e86e 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -733,6 +733,8 @@ class ProblemSizeReducer {
 
                 if (variable_ptrs[i]->related_constraint_ptrs() ==
                         variable_ptrs[j]->related_constraint_ptrs() &&
+                    variable_ptrs[i]->upper_bound() > 0 &&
+                    variable_ptrs[j]->lower_bound() <= 0 &&
                     (IS_EXCLUSIVE || !IS_IMPROVING)) {
                     variable_ptrs[j]->fix_by(0);
                     utility::print_message(  //
@@ -1210,12 +1212,13 @@ class ProblemSizeReducer {
 
                 /**
                  * If constraint i includes a variable which has already been
-                 * fixed at nonzero value and is not included in constraint j,
-                 * the constraint i cannot be removed.
+                 * fixed at nonzero value or cannot take zero, and is not
+                 * included in constraint j, the constraint i cannot be removed.
                  */
                 for (const auto &variable_ptr : variable_ptr_sets[i]) {
-                    if (variable_ptr->is_fixed() &&
-                        variable_ptr->value() != 0 &&
+                    if (((variable_ptr->is_fixed() &&
+                          variable_ptr->value() != 0) ||
+                         variable_ptr->lower_bound() > 0) &&
                         variable_ptr_sets[j].find(variable_ptr) ==
                             variable_ptr_sets[j].end()) {
                         is_included = false;
-- 
2.43.0


From 3766d4b56e1c476df95d42da98a22489ad6ac6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:10 +0000
Subject: [PATCH 54/59] fix: evaluate user-defined moves with the constraints
 related to them

---
 .../neighborhood/user_defined_move_generator.h    | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/printemps/neighborhood/user_defined_move_generator.h b/printemps/neighborhood/user_defined_move_generator.h
index 10d10b5..1437ad2 100644
--- a/printemps/neighborhood/user_defined_move_generator.h
+++ b/printemps/neighborhood/user_defined_move_generator.h
@@ -62,6 +62,21 @@ class UserDefinedMoveGenerator
                 for (auto i = 0; i < MOVES_SIZE; i++) {
                     (*a_moves_ptr)[i].sense = MoveSense::UserDefined;
                     (*a_flags)[i]           = 1;
+
+                    /**
+                     * The related constraints are required for evaluating the
+                     * move.
+                     */
+                    (*a_moves_ptr)[i].related_constraint_ptrs.clear();
+                    for (const auto &alteration :
+                         (*a_moves_ptr)[i].alterations) {
+                        (*a_moves_ptr)[i].related_constraint_ptrs.insert(
+                            (*a_moves_ptr)[i].related_constraint_ptrs.end(),
+                            alteration.first->related_constraint_ptrs().begin(),
+                            alteration.first->related_constraint_ptrs().end());
+                    }
+                    (*a_moves_ptr)[i].sort_and_unique_related_constraint_ptrs();
+
                     if ((*a_moves_ptr)[i].has_fixed_variable()) {
                         (*a_flags)[i] = 0;
                         continue;
-- 
2.43.0


From 2823b24ad5c9c1d2af09ae9005cc1b9f10622132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:21 +0000
Subject: [PATCH 55/59] fix: name a problem after its file even if a folder
 name contains a dot

---
 printemps/utility/string_utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/utility/string_utility.h b/printemps/utility/string_utility.h
index d573f6b..b9a0463 100755
--- a/printemps/utility/string_utility.h
+++ b/printemps/utility/string_utility.h
@@ -123,7 +123,7 @@ inline std::string remove_path(const std::string &a_ORIGINAL) {
 
 /*****************************************************************************/
 inline std::string base_name(const std::string &a_ORIGINAL) {
-    return remove_path(remove_extension(a_ORIGINAL));
+    return remove_extension(remove_path(a_ORIGINAL));
 }
 
 /*****************************************************************************/
-- 
2.43.0


From ffa82600b5dc56cf0f851e84933b75133346bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 56/59] fix: keep variables movable that become binary by the
 online bounding

---
 printemps/solver/solver.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/solver.h b/printemps/solver/solver.h
index 9ce4d15..6a37e08 100755
--- a/printemps/solver/solver.h
+++ b/printemps/solver/solver.h
@@ -80,8 +80,11 @@ class Solver {
     inline void enable_default_neighborhood(void) {
         auto& neighborhood = m_model_ptr->neighborhood();
 
-        if (m_option.neighborhood.is_enabled_binary_move &&
-            neighborhood.binary().moves().size() > 0) {
+        /**
+         * The binary neighborhood is enabled even if it is empty, because
+         * integer variables can become binary by the online bounding.
+         */
+        if (m_option.neighborhood.is_enabled_binary_move) {
             neighborhood.binary().enable();
         }
 
-- 
2.43.0


From 2d266167c24696afc1d832b39424c5288aba68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:51 +0000
Subject: [PATCH 57/59] fix: leave dependent variables out of the two-flip
 moves

---
 printemps/model/model.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 8fb8a17..9c5e49c 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1346,7 +1346,23 @@ class Model {
 
         if (a_OPTION.neighborhood.is_enabled_two_flip_move &&
             m_flippable_variable_ptr_pairs.size() > 0) {
-            m_neighborhood.two_flip().setup(m_flippable_variable_ptr_pairs);
+            /**
+             * The values of dependent variables are determined by other
+             * variables and must not be altered directly by moves.
+             */
+            auto flippable_variable_ptr_pairs = m_flippable_variable_ptr_pairs;
+            flippable_variable_ptr_pairs.erase(
+                std::remove_if(
+                    flippable_variable_ptr_pairs.begin(),
+                    flippable_variable_ptr_pairs.end(),
+                    [](const auto &a_PAIR) {
+                        return a_PAIR.first->dependent_expression_ptr() !=
+                                   nullptr ||
+                               a_PAIR.second->dependent_expression_ptr() !=
+                                   nullptr;
+                    }),
+                flippable_variable_ptr_pairs.end());
+            m_neighborhood.two_flip().setup(flippable_variable_ptr_pairs);
         }
 
         if (a_OPTION.neighborhood.is_enabled_user_defined_move) {
-- 
2.43.0


From c0cab3ff6dedabb129c2a2360bbf3b492803d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:54 +0000
Subject: [PATCH 58/59] fix: count rows of the same name once when they are
 related to a move

---
 printemps/neighborhood/move.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/printemps/neighborhood/move.h b/printemps/neighborhood/move.h
index 79f6c10..f1d6f1e 100644
--- a/printemps/neighborhood/move.h
+++ b/printemps/neighborhood/move.h
@@ -247,7 +247,21 @@ struct Move {
         std::stable_sort(this->related_constraint_ptrs.begin(),
                          this->related_constraint_ptrs.end(),
                          [](const auto &a_FIRST, const auto &a_SECOND) {
-                             return a_FIRST->name() < a_SECOND->name();
+                             /**
+                              * NOTE: The names are not necessarily unique. The
+                              * same pointers must be adjacent to each other for
+                              * the following std::unique().
+                              */
+                             if (a_FIRST->name() != a_SECOND->name()) {
+                                 return a_FIRST->name() < a_SECOND->name();
+                             }
+                             if (a_FIRST->proxy_index() !=
+                                 a_SECOND->proxy_index()) {
+                                 return a_FIRST->proxy_index() <
+                                        a_SECOND->proxy_index();
+                             }
+                             return a_FIRST->flat_index() <
+                                    a_SECOND->flat_index();
                          });
 
         this->related_constraint_ptrs.erase(
-- 
2.43.0


From 102b86010270b729007f732b79ab7df5ee3dbd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:49 +0000
Subject: [PATCH 59/59] fix: count the constant of the objective in the primal
 bounds of PDLP

The bounds of the primal objective start from zero while the dual objective
includes the constant, so a model with a large constant is claimed to be
infeasible.
---
 printemps/solver/pdlp/core/pdlp_core_state_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printemps/solver/pdlp/core/pdlp_core_state_manager.h b/printemps/solver/pdlp/core/pdlp_core_state_manager.h
index b342368..2a3efc0 100755
--- a/printemps/solver/pdlp/core/pdlp_core_state_manager.h
+++ b/printemps/solver/pdlp/core/pdlp_core_state_manager.h
@@ -56,8 +56,8 @@ class PDLPCoreStateManager {
         m_state.dual.objective_coefficients_norm =
             m_instance_ptr->dual_objective_coefficients.norm();
 
-        m_state.primal.objective_lower_bound = 0.0;
-        m_state.primal.objective_upper_bound = 0.0;
+        m_state.primal.objective_lower_bound = m_instance_ptr->objective_offset;
+        m_state.primal.objective_upper_bound = m_instance_ptr->objective_offset;
         for (auto i = 0; i < NUMBER_OF_COLUMNS; i++) {
             const auto COEFFICIENT =
                 m_instance_ptr->primal_objective_coefficients[i];
-- 
2.43.0

