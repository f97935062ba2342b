From 4c385c1b5133699fe35c51c6edb3b53f27085d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 01/14] fix: substitute arguments everywhere in the body of a
 defined function

The rewriter only descended into children it had already processed, so the
formal parameters of a define-fun were never replaced. It also has to keep the
polarity of negated children and the function symbol of applications.
---
 src/terms/Term_rewriter.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 930d1d3..7183b1e 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -29,8 +29,14 @@ public:
         std::vector<DFSEntry> toProcess;
         std::vector<term_t> aux_args;
         auto is_processed = [&processed](term_t term) { return processed.find(term) != processed.end(); };
+        // Only positive terms are processed. This maps a (possibly negated) term to its rewritten form.
+        auto substituted = [&](term_t term) {
+            auto it = substitutions.find(tm.positive_term(term));
+            if (it == substitutions.end()) { return term; }
+            return tm.is_negated(term) ? opposite_term(it->second) : it->second;
+        };
 
-        toProcess.emplace_back(root);
+        toProcess.emplace_back(tm.positive_term(root));
         while (not toProcess.empty())
         {
             auto & current_entry = toProcess.back();
@@ -39,20 +45,19 @@ public:
             auto children = tm.get_args(current_term);
             if (current_entry.next_child < children.size())
             {
-                term_t next_child = children[current_entry.next_child];
+                term_t next_child = tm.positive_term(children[current_entry.next_child]);
                 ++current_entry.next_child;
-                if (is_processed(next_child)) { toProcess.emplace_back(next_child); }
+                if (not is_processed(next_child)) { toProcess.emplace_back(next_child); }
                 continue;
             }
             // If we are here, we have already processed all children
             assert(substitutions.count(current_term) == 0);
             bool needs_change = false;
+            if (tm.is_app(current_term)) { aux_args.push_back(tm.get_fnc_symbol(current_term)); }
             for (term_t child : children)
             {
-                auto it = substitutions.find(child);
-                bool child_changed = it != substitutions.end();
-                needs_change |= child_changed;
-                term_t newChild = child_changed ? it->second : child;
+                term_t newChild = substituted(child);
+                needs_change |= newChild != child;
                 assert(tm.get_type(child) == tm.get_type(newChild));
                 aux_args.push_back(newChild);
             }
@@ -67,8 +72,7 @@ public:
             toProcess.pop_back();
         }
 
-        auto it = substitutions.find(root);
-        return it == substitutions.end() ? root : it->second;
+        return substituted(root);
     }
 };
 
-- 
2.43.0


From cc65537d5d2ace61f31e864a95010cc4333f86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 02/14] fix: answer every check-sat of a script from the whole
 set of assertions

A second check started from the trail of the previous one and without the
clauses that define terms internalized earlier.
---
 src/Solver.cpp                | 7 +++++++
 src/parser/Solver_wrapper.cpp | 5 ++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index bb7efde..0093dd8 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -158,6 +158,13 @@ void Solver::decide(Variable var)
 
 void Solver::init()
 {
+    // forget the assignment left on the trail by the previous `check()`
+    if (!trail().empty())
+    {
+        dispatcher.on_before_backtrack(db(), trail(), /*decision_level=*/-1);
+        trail().clear();
+    }
+
     // allocate memory
     for (auto [type, model] : trail().models())
     {
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 08a1f76..1065bf3 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -27,9 +27,8 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
         return Solver_answer::UNSAT;
     }
 
-    // Cnfize and assert clauses to the solver
-    solver.init();
-
+    // Cnfize and assert clauses to the solver. Terms internalized by a previous check are reused, so
+    // the clauses which define them have to stay in the solver.
     internalizer.visit(assertions);
 
     // add top level assertions to the solver
-- 
2.43.0


From 76b1f26fc8ca879f5a5cb1758e80dc9f14f52fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 03/14] fix: do not queue an effectively decided variable twice

---
 src/variable_order/Generalized_vsids.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index df10383..1485d1a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -82,7 +82,10 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
-        effectively_decided.push(var, score(var));
+        if (!effectively_decided.contains(var))
+        {
+            effectively_decided.push(var, score(var));
+        }
     }
 
     // decide effectively decided variables first
-- 
2.43.0


From 7544b52ac514c077ba700c52bff0cd039b952162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 04/14] fix: equality of terms which denote the same polynomial

---
 src/terms/Term_manager.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 293e60a..2a47e18 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -426,7 +426,11 @@ term_t Term_manager::mk_arithmetic_eq(term_t t1, term_t t2)
     auto p = term_to_poly(t1);
     auto other = term_to_poly(t2);
     p.merge(other, -1);
-    assert(p.size() != 0);
+    if (p.size() == 0)
+    {
+        // different terms can denote the same polynomial
+        return true_term;
+    }
     if (p.size() <= 2)
     {
         if (p.size() == 1)
@@ -647,8 +651,8 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
         return term_table->arithmetic_product(val, *pit);
     case Kind::ARITH_PRODUCT: {
         term_t var = term_table->var_of_product(poly_term);
-        auto const& coeff = term_table->coeff_of_product(poly_term);
-        return term_table->arithmetic_product(coeff * val, var);
+        Rational const coeff = term_table->coeff_of_product(poly_term) * val;
+        return coeff == 1 ? var : term_table->arithmetic_product(coeff, var);
     }
     case Kind::ARITH_POLY:
     {
-- 
2.43.0


From 3ceb86a380a818e5ae7061dce6abbb35db582377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 05/14] fix: propagate an equality of arguments at the level of
 its variables

Variables common to both terms cancel out, so the literal was attached to a
higher level than the assignment which determines its value.
---
 src/uf/Uninterpreted_functions.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 83008c5..4ca6a0c 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -301,11 +301,13 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
         }
 
         if (propagate) {
-            Term_evaluation t_eval = evaluate(t, trail);
-            Term_evaluation u_eval = evaluate(u, trail);
-            assert(are_equal == (t_eval.value == u_eval.value));
+            assert(are_equal == (evaluate(t, trail).value == evaluate(u, trail).value));
 
-            int propagation_level = std::max<int>(t_eval.decision_level, u_eval.decision_level);
+            // variables that cancel out in (t - u) do not affect the value of the constraint
+            int propagation_level = 0;
+            for (int var_ord : p.vars) {
+                propagation_level = std::max<int>(propagation_level, trail.decision_level(Variable{var_ord, Variable::rational}).value());
+            }
             trail.propagate(lit.var(), nullptr, propagation_level);
             trail_model.set_value(lit.var().ord(), are_equal);
         }
-- 
2.43.0


From af720d02b3c9fea37152c58b953d543d34d5b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 06/14] fix: Boolean arguments and values of uninterpreted
 functions

---
 src/parser/Solver_wrapper.cpp      |  3 ++-
 src/uf/Uninterpreted_functions.cpp | 31 ++++++++++++++++++++++++------
 src/uf/Uninterpreted_functions.h   |  7 +++++++
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 1065bf3..232962b 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -233,6 +233,7 @@ void Internalizer_config::visit(term_t t)
             break;
         }
 
+        t = term_manager.positive_term(t);
         Variable var = solver.make_function_application(var_type, t);
 
         switch (term_type) {
@@ -324,7 +325,7 @@ void Internalizer_config::visit(term_t t)
 
     case terms::Kind::CONSTANT_TERM:
     {
-        if (t != terms::true_term)
+        if (term_manager.positive_term(t) != terms::true_term)
         {
             throw std::logic_error("Unhandled internalize case!");
         }
diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 4ca6a0c..edb3092 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -74,11 +74,9 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
         break;
     }
     case terms::types::bool_type: {
-        auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == t; };
-        auto found = std::ranges::find_if(bool_vars, key_equal);
-        if (found != bool_vars.end())
+        if (auto lit = term_to_literal(t))
         {
-            return found->second.var();
+            return lit->var();
         }
         break;
     }
@@ -87,6 +85,17 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
     return std::nullopt;
 }
 
+std::optional<Literal> Uninterpreted_functions::term_to_literal(terms::term_t t) {
+    // only positive terms are mapped to literals
+    auto key_equal = [positive = term_manager.positive_term(t)](std::pair<terms::term_t, Literal> p) { return p.first == positive; };
+    auto found = std::ranges::find_if(bool_vars, key_equal);
+    if (found == bool_vars.end())
+    {
+        return std::nullopt;
+    }
+    return term_manager.is_negated(t) ? ~found->second : found->second;
+}
+
 std::vector<Variable> Uninterpreted_functions::vars_to_watch(terms::term_t t) {
     std::vector<Variable> result;
 
@@ -167,8 +176,7 @@ Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const
         }
         case terms::types::bool_type: {
             Model<bool> const& b_model = trail.model<bool>(Variable::boolean);
-            bool bool_model_value = b_model.value(maybe_var.value().ord());
-            result.value = bool_model_value;
+            result.value = eval(b_model, term_to_literal(t).value()).value();
             break;
         }
         }
@@ -270,6 +278,17 @@ utils::Linear_polynomial Uninterpreted_functions::term_to_poly(terms::term_t t)
 void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u, Trail& trail, Clause& result_clause, bool make_equal) {
     assert(term_manager.get_type(t) == term_manager.get_type(u));
     switch(term_manager.get_type(t)) {
+    case terms::types::bool_type: {
+        // both terms are evaluated, forbid their current values
+        auto& trail_model = trail.model<bool>(Variable::boolean);
+        for (terms::term_t term : {t, u}) {
+            // values of constants do not depend on the trail
+            if (auto lit = term_to_literal(term); lit.has_value() && t != u) {
+                result_clause.push_back(eval(trail_model, lit.value()).value() ? ~lit.value() : lit.value());
+            }
+        }
+        break;
+    }
     case terms::types::real_type:
         // polynomial p == (t - u)
         utils::Linear_polynomial p = term_to_poly(t);
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index 5b604f9..53ea635 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -152,6 +152,13 @@ private:
      */
     std::optional<Variable> term_to_var(terms::term_t t);
 
+    /** Find the literal which represents a boolean term @p t
+     *
+     * @param t boolean term (possibly negated)
+     * @return literal which is true iff @p t is true or std::nullopt if there is none
+     */
+    std::optional<Literal> term_to_literal(terms::term_t t);
+
     /** Store the value of the application term @p t and check for potential function application
      * conflicts
      *
-- 
2.43.0


From 9e907ca1990c726a1bbf6ac7f3a538d841db284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 07/14] fix: invert rationals that do not fit a machine word

---
 src/lra/Long_fraction.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 6025818..08775e4 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -419,11 +419,7 @@ public:
     }
 
     inline Long_fraction inv() const {
-        if (sign() >= 0) {
-            return {static_cast<word>(den), static_cast<uword>(num)};
-        } else {
-            return {static_cast<word>(-den), static_cast<uword>(-num)};
-        }
+        return inverse();
     }
 };
 
-- 
2.43.0


From f500ace079f4b5345602dcd32bf296771f7530b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 08/14] fix: keep the scores of queued variables up to date

A variable whose bump triggered a rescale, and all variables at the start of a
new check, kept an outdated score in the priority queues.
---
 src/variable_order/Generalized_vsids.cpp | 10 +++++++---
 src/variable_order/Generalized_vsids.h   |  7 ++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index 1485d1a..261710e 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -19,11 +19,15 @@ void Generalized_vsids::on_variable_resize(Variable::Type type, int num_vars)
 
 void Generalized_vsids::on_init(Database& db, Trail&)
 {
-    for (auto& scores : vsids)
+    // forget the scores from the previous check, also in the queues
+    for (std::size_t type = 0; type < vsids.size(); ++type)
     {
-        for (auto& score : scores)
+        for (std::size_t ord = 0; ord < vsids[type].size(); ++ord)
         {
-            score = 0.0f;
+            Variable var{static_cast<int>(ord), static_cast<Variable::Type>(type)};
+            score(var) = 0.0f;
+            variables.update(var, 0.0f);
+            effectively_decided.update(var, 0.0f);
         }
     }
 
diff --git a/src/variable_order/Generalized_vsids.h b/src/variable_order/Generalized_vsids.h
index 5e3423a..d2eb3d8 100644
--- a/src/variable_order/Generalized_vsids.h
+++ b/src/variable_order/Generalized_vsids.h
@@ -165,11 +165,8 @@ private:
         {
             rescale();
         }
-        else
-        {
-            variables.update(var, score(var));
-            effectively_decided.update(var, score(var));
-        }
+        variables.update(var, score(var));
+        effectively_decided.update(var, score(var));
     }
 };
 
-- 
2.43.0


From efbe29351b910a32e2876576b1dc105818d950cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 09/14] fix: build a rational from a negative numerator with a
 common factor

---
 src/lra/Long_fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 08775e4..801cef9 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -646,7 +646,7 @@ inline Long_fraction::Long_fraction(word n, uword d) : state{State::WORD_VALID}
     } else {
         uword common = gcd<uword>(absVal(n), d);
         if (common > 1) {
-            num = n / common;
+            num = static_cast<word>(lword(n) / lword(common)); // n may be negative
             den = d / common;
         } else {
             num = n;
-- 
2.43.0


From 3c25d95bf0b2202985f1eca4bcd6ce04586385c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 10/14] fix: divisors and remainders of negative rationals

gcd, lcm and the remainder of integers which fit a machine word differed from
the results for larger integers when an operand was negative, and the exact
quotient of INT_MIN and -1 overflowed.
---
 src/lra/Long_fraction.cpp | 8 +++++---
 src/lra/Long_fraction.h   | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lra/Long_fraction.cpp b/src/lra/Long_fraction.cpp
index 16cc1fe..dd4b3a1 100644
--- a/src/lra/Long_fraction.cpp
+++ b/src/lra/Long_fraction.cpp
@@ -116,7 +116,7 @@ namespace yaga {
     Long_fraction gcd(Long_fraction const &a, Long_fraction const &b) {
         assert(a.isInteger() and b.isInteger());
         if (a.wordPartValid() && b.wordPartValid()) {
-            return Long_fraction(gcd(a.num, b.num));
+            return Long_fraction(gcd(absVal(a.num), absVal(b.num)));
         } else {
             a.force_ensure_mpq_valid();
             b.force_ensure_mpq_valid();
@@ -128,7 +128,7 @@ namespace yaga {
     Long_fraction lcm(Long_fraction const &a, Long_fraction const &b) {
         assert(a.isInteger() and b.isInteger());
         if (a.wordPartValid() && b.wordPartValid()) {
-            return lcm(a.num, b.num);
+            return lcm(absVal(a.num), absVal(b.num));
         } else {
             a.force_ensure_mpq_valid();
             b.force_ensure_mpq_valid();
@@ -175,7 +175,9 @@ namespace yaga {
             word num = n.num;
             word den = d.num;
             word quo;
-            if (den != 0) {
+            if (den == -1) { // The quotient of INT_MIN does not fit into a word
+                return -n;
+            } else if (den != 0) {
                 quo = num / den;
                 return quo;
             } else {
diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 801cef9..e6344b8 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -409,8 +409,10 @@ public:
     Long_fraction operator%(const Long_fraction& d) {
         assert(isInteger() && d.isInteger());
         if (wordPartValid() && d.wordPartValid()) {
-            uword w = absVal(num % d.num);  // Largest value is absVal(INT_MAX % INT_MIN) = INT_MAX
-            return (word)(d.num > 0 ? w : -w); // No overflow since 0 <= w <= INT_MAX
+            lword r = lword(num) % d.num;
+            if (r != 0 && (r < 0) != (d.num < 0))
+                r += d.num; // round the quotient down so that the remainder has the sign of d
+            return (word)r; // No overflow since |r| < |d.num|
         }
         Long_fraction r = (*this) / d;
         r = r.floor();
-- 
2.43.0


From 042fae718cc434267ba971b12ccb603b9d4957b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 11/14] fix: quote symbols in printed models

Names such as |x y| were printed without their quotes, so the model could not
be read back.
---
 src/parser/Smt2_parser.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index c5c6c63..d68e1aa 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -2,6 +2,8 @@
 
 #include <stdexcept>
 #include <fstream>
+#include <string_view>
+#include <unordered_set>
 #include <vector>
 
 #include "Smt2_term_parser.h"
@@ -23,6 +25,28 @@ class Print_model final : public Default_model_visitor {
     // output stream where the model will be printed
     std::ostream& output;
 
+    // print a symbol so that it can be read back (names are stored without quotes)
+    void print_symbol(std::string_view name) {
+        static std::unordered_set<std::string_view> const reserved{
+            "BINARY", "DECIMAL", "HEXADECIMAL", "NUMERAL", "STRING", "_", "!", "as", "let", "exists",
+            "forall", "match", "par", "assert", "check-sat", "check-sat-assuming", "declare-const",
+            "declare-datatype", "declare-datatypes", "declare-fun", "declare-sort", "define-const",
+            "define-fun", "define-fun-rec", "define-funs-rec", "define-sort", "echo", "exit",
+            "get-assertions", "get-assignment", "get-info", "get-model", "get-option", "get-proof",
+            "get-unsat-assumptions", "get-unsat-core", "get-value", "pop", "push", "reset",
+            "reset-assertions", "set-info", "set-logic", "set-option"};
+        constexpr std::string_view digits = "0123456789";
+        constexpr std::string_view simple = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                                            "0123456789~!@$%^&*_-+=<>.?/";
+        bool is_simple = !name.empty() && digits.find(name[0]) == std::string_view::npos &&
+                         name.find_first_not_of(simple) == std::string_view::npos &&
+                         !reserved.contains(name);
+        if (is_simple)
+            output << name;
+        else
+            output << "|" << name << "|";
+    }
+
     void print_variable(terms::var_value_t var) {
         if (std::holds_alternative<bool>(var))
             output << (std::get<bool>(var) ? "true" : "false");
@@ -73,7 +97,9 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " () ";
+            output << "(define-fun ";
+            print_symbol(*name);
+            output << " () ";
             print_type((int) value.index());
             output << " ";
             print_variable(value);
@@ -92,7 +118,9 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " (";
+            output << "(define-fun ";
+            print_symbol(*name);
+            output << " (";
 
             std::vector<std::string> arg_names;
             auto arg_vector = values.begin()->first;
-- 
2.43.0


From 3657982bc1ab563ae20c23f90549b0c385ff7b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 12/14] fix: operators with more than two arguments

mk_term built (< a b c), (- a b c), (/ a b c), (=> a b c) and (xor a b c) from
the first two arguments. Debug builds stopped at an assertion and release
builds ignored the other arguments, so their answers were wrong.
---
 src/terms/Term_manager.cpp | 43 ++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 2a47e18..233d691 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -161,25 +161,37 @@ term_t Term_manager::mk_term(Kind kind, std::span<term_t> args)
 
 term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool not_app /* = false */)
 {
+    // (op a b c) stands for (and (op a b) (op b c))
+    auto chain = [&](auto&& mk_pair) {
+        assert(args.size() >= 2);
+        std::vector<term_t> pairs;
+        for (std::size_t i = 1; i < args.size(); ++i)
+        {
+            pairs.push_back(mk_pair(args[i - 1], args[i]));
+        }
+        return pairs.size() == 1 ? pairs.front() : mk_and(pairs);
+    };
+    // (op a b c) stands for (op (op a b) c)
+    auto left_fold = [&](auto&& mk_pair) {
+        assert(args.size() >= 2);
+        return std::accumulate(args.begin() + 1, args.end(), args[0], mk_pair);
+    };
+
     if (op == ">=")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_geq(args[0], args[1]);
+        return chain([&](term_t x, term_t y) { return mk_arithmetic_geq(x, y); });
     }
     else if (op == "<=")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_leq(args[0], args[1]);
+        return chain([&](term_t x, term_t y) { return mk_arithmetic_leq(x, y); });
     }
     else if (op == "<")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_lt(args[0], args[1]);
+        return chain([&](term_t x, term_t y) { return mk_arithmetic_lt(x, y); });
     }
     else if (op == ">")
     {
-        assert(args.size() == 2);
-        return mk_arithmetic_gt(args[0], args[1]);
+        return chain([&](term_t x, term_t y) { return mk_arithmetic_gt(x, y); });
     }
     else if (op == "=")
     {
@@ -195,8 +207,10 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "=>")
     {
-        assert(args.size() == 2);
-        return mk_implies(args[0], args[1]);
+        // right associative
+        assert(args.size() >= 2);
+        return std::accumulate(args.rbegin() + 1, args.rend(), args.back(),
+                               [&](term_t y, term_t x) { return mk_implies(x, y); });
     }
     else if (op == "not")
     {
@@ -211,8 +225,7 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
         }
         else
         {
-            assert(args.size() == 2);
-            return mk_arithmetic_minus(args[0], args[1]);
+            return left_fold([&](term_t x, term_t y) { return mk_arithmetic_minus(x, y); });
         }
     }
     else if (op == "+")
@@ -225,8 +238,7 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "/")
     {
-        assert(args.size() == 2);
-        return mk_divides(args[0], args[1]);
+        return left_fold([&](term_t x, term_t y) { return mk_divides(x, y); });
     }
     else if (op == "ite")
     {
@@ -235,8 +247,7 @@ term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool
     }
     else if (op == "xor")
     {
-        assert(args.size() == 2);
-        return mk_xor(args[0], args[1]);
+        return left_fold([&](term_t x, term_t y) { return mk_xor(x, y); });
     }
     else if (op == "distinct")
     {
-- 
2.43.0


From 039cf36512edfd1e13c1d9427d10d2ae106dddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 13/14] fix: products of more than two factors

---
 src/terms/Term_manager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 233d691..04ae0a3 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -628,7 +628,6 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     {
         return args[0];
     }
-    assert(args.size() == 2);
     auto pit = std::partition(args.begin(), args.end(),[this](term_t arg) { return this->term_table->is_arithmetic_constant(arg); });
     // constants are from begin to it, non-constants are from pit (included) until end
     assert(args.end() - pit <= 1);
-- 
2.43.0


From a701533d62ae482d473973f811a3b7a6c1c50c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 14/14] fix: attributes without a value or with a list as value

---
 src/parser/Smt2_parser.cpp      | 10 ++++------
 src/parser/Smt2_term_parser.cpp | 15 ++++++++++-----
 src/parser/Smt2_term_parser.h   |  4 +++-
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index d68e1aa..2ab53ca 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -398,11 +398,10 @@ bool Smt2_command_context::parse_command()
     case Token::SET_INFO_TOK:
     {
         std::string keyword = term_parser.parse_keyword();
-        std::string value = term_parser.parse_sexpr();
         // TODO: Do something with the values
         (void)keyword;
-        (void)value;
-        break;
+        term_parser.skip_attribute_value();
+        return true;
     }
     // (set-logic <symbol>)
     case Token::SET_LOGIC_TOK:
@@ -422,11 +421,10 @@ bool Smt2_command_context::parse_command()
     case Token::SET_OPTION_TOK:
     {
         std::string keyword = term_parser.parse_keyword();
-        std::string value = term_parser.parse_sexpr();
         // TODO: Do something with the values
         (void)keyword;
-        (void)value;
-        break;
+        term_parser.skip_attribute_value();
+        return true;
     }
     break;
 
diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index e8ca346..9a2f21c 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -290,12 +290,17 @@ std::string Smt2_term_parser::parse_keyword()
     return value.erase(0,1);
 }
 
-std::string Smt2_term_parser::parse_sexpr()
+void Smt2_term_parser::skip_attribute_value()
 {
-    // TODO: Check the token?
-    Token tok = lexer.next_token();
-    (void)tok;
-    return lexer.token_string();
+    for (int depth = 1; depth > 0;)
+    {
+        Token tok = lexer.next_token();
+        if (tok == Token::EOF_TOK)
+        {
+            lexer.unexpected_token_error(tok);
+        }
+        depth += (tok == Token::LPAREN_TOK) - (tok == Token::RPAREN_TOK);
+    }
 }
 
 std::vector<Sorted_var> Smt2_term_parser::parse_sorted_var_list()
diff --git a/src/parser/Smt2_term_parser.h b/src/parser/Smt2_term_parser.h
index aa8101c..e94db28 100644
--- a/src/parser/Smt2_term_parser.h
+++ b/src/parser/Smt2_term_parser.h
@@ -41,7 +41,9 @@ public:
     std::vector<type_t> parse_sort_list();
 
     std::string parse_keyword();
-    std::string parse_sexpr();
+
+    // skip the (possibly empty) value of an attribute and the parenthesis which closes the command
+    void skip_attribute_value();
 
     std::vector<Sorted_var> parse_sorted_var_list();
 };
-- 
2.43.0

