From ade2b5865fa5661f7afed9b5508ac3f5c06dd9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 01/81] fix: aci_simp only removes duplicates under idempotent
 operators

---
 carcara/src/checker/rules/simplification.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 230667f..c784b95 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -757,6 +757,14 @@ fn is_assoc(op: Operator) -> bool {
     )
 }
 
+// Duplicate arguments can only be removed if the operator is idempotent
+fn is_idempotent(op: Operator) -> bool {
+    matches!(
+        op,
+        Operator::And | Operator::Or | Operator::BvAnd | Operator::BvOr
+    )
+}
+
 // Term is given as argument as well because if the operator is
 // parametric, such as a BV operator, the width of the arguments will
 // be relevant.
@@ -859,8 +867,9 @@ fn apply_aci_simp(
         return t.clone();
     }
     let result = match term.as_ref() {
-        // flatten and remove duplicate on the result
+        // flatten and, if the operator allows it, remove duplicates on the result
         Term::Op(opp, args) if *opp == op => {
+            let mut seen = IndexSet::new();
             let args: Vec<_> = args
                 .iter()
                 .flat_map(|term| {
@@ -870,7 +879,7 @@ fn apply_aci_simp(
                         _ => vec![term.clone()],
                     }
                 })
-                .dedup()
+                .filter(|t| !is_idempotent(op) || seen.insert(t.clone()))
                 .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap())
                 .collect();
             if args.len() == 1 {
-- 
2.43.0


From 6bbae72cf6f3645a402032094c235a20f6eb63df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 02/81] fix: greedy resolution eliminates a pivot again if a
 later premise reintroduces it

---
 carcara/src/resolution.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/carcara/src/resolution.rs b/carcara/src/resolution.rs
index e8dc80c..ee0bad0 100644
--- a/carcara/src/resolution.rs
+++ b/carcara/src/resolution.rs
@@ -115,6 +115,10 @@ pub fn greedy_resolution(
         //     (step t2 (cl (= false true) false true) :rule equiv_neg2)
         //     (step t3 (cl (= false true)) :rule resolution :premises (t1 t2))
         let mut eliminated_clause_pivot = false;
+
+        // The pivots introduced by this clause can only be eliminated by the following clauses, so
+        // they are only added to the pivots map after we finish processing the clause
+        let mut new_pivots = Vec::new();
         for term in premise {
             let (n, inner) = term.remove_all_negations();
             let n = n as i32;
@@ -166,12 +170,15 @@ pub fn greedy_resolution(
             } else if conclusion.contains(&(n, inner)) {
                 working_clause.insert((n, inner));
             } else {
-                // If the term is not in the conclusion clause, it must be a pivot. If it was
-                // not already in the pivots set, we insert `false`, to indicate that it was
-                // not yet eliminated
-                pivots.entry((n, inner)).or_insert(false);
+                // If the term is not in the conclusion clause, it must be a pivot
+                new_pivots.push((n, inner));
             }
         }
+
+        // If this clause introduces a pivot that was already eliminated, it has to be eliminated again
+        for pivot in new_pivots {
+            pivots.insert(pivot, false);
+        }
     }
 
     // There are some special cases in the resolution rules that are valid, but leave a pivot
-- 
2.43.0


From d8311ccd225a43098f69a42017792e52633bb884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 03/81] fix: drat only concludes non-empty clauses that are
 implied by its premises

---
 carcara/src/drup.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/carcara/src/drup.rs b/carcara/src/drup.rs
index 052267f..21bb4b0 100644
--- a/carcara/src/drup.rs
+++ b/carcara/src/drup.rs
@@ -40,6 +40,8 @@ pub enum DrupFormatError {
     CheckingRatInEmptyClause,
     #[error("the clause isn't in RAT format")]
     NotInRatFormat,
+    #[error("RAT clauses can only be used to derive the empty clause")]
+    RatWithNonEmptyConclusion,
 }
 
 pub fn hash_term<T: Borrow<Rc<Term>>>(pool: &mut dyn TermPool, term: T) -> u64 {
@@ -234,6 +236,7 @@ pub fn check_drup(
         .collect();
 
     let mut drup_history: DRupStory = vec![];
+    let mut used_rat = false;
     for t in args {
         if let Some(terms) = match_term!((delete (cl ...)) = &t) {
             let clause_term = if terms.is_empty() {
@@ -250,6 +253,7 @@ pub fn check_drup(
         let mut unit_history = rup(pool, premises.borrow(), terms);
         if unit_history.is_none() && !terms.is_empty() && check_rat {
             unit_history = check_drat(pool, premises.borrow(), terms);
+            used_rat = true;
         }
 
         if unit_history.is_none() {
@@ -276,6 +280,13 @@ pub fn check_drup(
         premises.insert(hash_term(pool, t), terms_indexed_set);
     }
 
+    // A clause added by a RAT step is not necessarily implied by the premises, it only preserves their
+    // satisfiability. Therefore, in that case we can only conclude the empty clause
+    let is_empty = match_term!((cl ...) = conclusion).is_some_and(<[_]>::is_empty);
+    if used_rat && !is_empty {
+        return Err(DrupFormatError::RatWithNonEmptyConclusion);
+    }
+
     if !premises.contains_key(&hash_term(pool, conclusion)) {
         return Err(DrupFormatError::NoConclusionInPremise);
     }
-- 
2.43.0


From 65ca6fa9b693ee3e32034959a6971080881482e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 04/81] fix: drup and drat reject malformed arguments instead
 of panicking

---
 carcara/src/drup.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/carcara/src/drup.rs b/carcara/src/drup.rs
index 21bb4b0..8ae6e5e 100644
--- a/carcara/src/drup.rs
+++ b/carcara/src/drup.rs
@@ -239,17 +239,15 @@ pub fn check_drup(
     let mut used_rat = false;
     for t in args {
         if let Some(terms) = match_term!((delete (cl ...)) = &t) {
-            let clause_term = if terms.is_empty() {
-                terms[0].clone()
-            } else {
-                build_term!(pool, (cl[terms.to_vec()]))
-            };
+            let clause_term = build_term!(pool, (cl[terms.to_vec()]));
             premises.remove(&hash_term(pool, &clause_term));
             drup_history.push(DRupProofAction::Delete(clause_term));
             continue;
         }
 
-        let terms = match_term!((cl ...) = &t).unwrap();
+        let Some(terms) = match_term!((cl ...) = &t) else {
+            return Err(DrupFormatError::PotentialNoDrupFormat);
+        };
         let mut unit_history = rup(pool, premises.borrow(), terms);
         if unit_history.is_none() && !terms.is_empty() && check_rat {
             unit_history = check_drat(pool, premises.borrow(), terms);
-- 
2.43.0


From 7f86439becbd8bf6c685dc1718098006bcba0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 05/81] fix: alpha-equivalence compares binding lists of equal
 length and let values outside their scope

---
 carcara/src/ast/polyeq.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 72bbc24..127ccfe 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -201,26 +201,29 @@ impl Polyeq {
         a_inner: &Rc<Term>,
         b_inner: &Rc<Term>,
     ) -> bool {
-        if let Some(de_bruijn_map) = self.de_bruijn_map.as_mut() {
-            // First, we push new scopes into the De Bruijn map and the cache stack
-            de_bruijn_map.push();
-            self.cache.push_scope();
+        if self.de_bruijn_map.is_some() {
+            // First, we check that the binding lists are equivalent. The sorts (or, in the case of
+            // `let` terms, the values) in them are outside the scope of the bound variables, so we
+            // do this before entering the new scope
+            if a_binds.len() != b_binds.len()
+                || !a_binds
+                    .iter()
+                    .zip(b_binds.iter())
+                    .all(|(a_var, b_var)| self.eq(&a_var.1, &b_var.1))
+            {
+                return false;
+            }
 
-            // Then, we check that the binding lists and the inner terms are equivalent
+            // Then, we push new scopes into the De Bruijn map and the cache stack, and insert each
+            // variable in the binding lists into the De Bruijn map
+            let de_bruijn_map = self.de_bruijn_map.as_mut().unwrap();
+            de_bruijn_map.push();
             for (a_var, b_var) in a_binds.iter().zip(b_binds.iter()) {
-                if !self.eq(&a_var.1, &b_var.1) {
-                    // We must remember to pop the frames from the De Bruijn map and cache stack
-                    // here, so as not to leave them in a corrupted state
-                    self.de_bruijn_map.as_mut().unwrap().pop();
-                    self.cache.pop_scope();
-                    return false;
-                }
-                // We also insert each variable in the binding lists into the De Bruijn map
-                self.de_bruijn_map
-                    .as_mut()
-                    .unwrap()
-                    .insert(a_var.0.clone(), b_var.0.clone());
+                de_bruijn_map.insert(a_var.0.clone(), b_var.0.clone());
             }
+            self.cache.push_scope();
+
+            // Then, we check that the inner terms are equivalent
             let result = self.eq(a_inner, b_inner);
 
             // Finally, we pop the scopes we pushed
-- 
2.43.0


From 62316e0202a33ec7a12e719237c7331b4e14e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 06/81] fix: alpha-equivalence does not reuse cached equalities
 under rebound variables

---
 carcara/src/ast/polyeq.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 127ccfe..4655f3b 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -483,7 +483,9 @@ impl PolyeqComparable for Rc<Term> {
         }
 
         // We first check the cache to see if these terms were already determined to be equal
-        if comp.cache.get(&(a.clone(), b.clone())).is_some() {
+        // (in the current scope, as the variables in them might have been bound again since)
+        let cached = comp.cache.get_with_depth(&(a.clone(), b.clone()));
+        if cached.is_some_and(|(depth, ())| depth + 1 == comp.cache.height()) {
             return true;
         }
 
-- 
2.43.0


From f3005db7dcfebbed3223cdb621567c7723cd73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 07/81] fix: la_generic only strengthens disequalities over
 integers, by a sound amount

---
 .../src/checker/rules/linear_arithmetic.rs    | 132 ++++++++----------
 1 file changed, 62 insertions(+), 70 deletions(-)

diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 6b6718f..38346ab 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -178,81 +178,66 @@ impl LinearComb {
         self.add(other)
     }
 
-    /// Finds the greatest common divisor of the coefficients in the linear combination. Returns
-    /// 1 if the linear combination is empty, or if any of the coefficients is not an integer.
-    fn coefficients_gcd(&self) -> Integer {
-        if !self.1.is_integer() {
-            return Integer::from(1);
+    /// Finds the greatest common divisor of the (rational) coefficients of the non-constant terms in
+    /// the linear combination. That is, the greatest rational such that all coefficients are integer
+    /// multiples of it. Returns 1 if there are no non-constant terms.
+    fn coefficients_gcd(&self) -> Rational {
+        if self.0.is_empty() {
+            return Rational::from(1);
         }
-
-        let mut result = self.1.numer().clone();
-        for (_, coeff) in &self.0 {
-            if result == 1 {
-                return Integer::from(1);
-            }
-            if coeff.is_integer() {
-                result.gcd_mut(coeff.numer());
-            } else {
-                return Integer::from(1);
-            }
+        let mut numer = Integer::new();
+        let mut denom = Integer::from(1);
+        for coeff in self.0.values() {
+            numer.gcd_mut(coeff.numer());
+            denom.lcm_mut(coeff.denom());
         }
+        Rational::from((numer, denom))
+    }
 
-        // If the linear combination is all zeros, the result would also be zero. In that case, we
-        // have to return one instead
-        std::cmp::max(Integer::from(1), result)
+    /// Returns `true` if all non-constant terms in the linear combination can only have integer
+    /// values.
+    fn is_integral(&self, pool: &mut dyn TermPool) -> bool {
+        self.0.keys().all(|term| {
+            matches!(term.as_ref(), Term::Op(Operator::ToReal, _))
+                || matches!(pool.sort(term).as_sort(), Some(Sort::Int))
+        })
     }
 }
 
-fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Operator {
-    // Multiplications are expensive, so we avoid them if we can
-    let is_integer = if *a == 0 {
-        true
-    } else if *a == 1 {
-        disequality.1.is_integer()
-    } else {
-        (disequality.1.clone() * a).is_integer()
-    };
-
+/// Applies the strengthening rules to a disequality, if all the terms in it are integers.
+///
+/// If `g` is the greatest common divisor of the coefficients, the left-hand side of the disequality
+/// is always a multiple of `g`. Therefore, the right-hand side can be rounded up to the next
+/// multiple of `g` (or, if the disequality is strict, to the next strictly greater multiple).
+/// Consider for instance the following example:
+/// ```text
+///     (step t1 (cl
+///         (not (<= (- 1) n))
+///         (not (<= (- 1) (+ n m)))
+///         (<= (- 2) (* 2 n))
+///         (not (<= m 1))
+///     ) :rule la_generic :args (1 1 1 1))
+/// ```
+/// After the third disequality is negated and flipped, it becomes:
+///     -2 * n > 2
+/// which is strengthened to:
+///     -2 * n >= 4
+/// Importantly, this strengthening is sometimes necessary to check some `la_generic` steps.
+fn strengthen(pool: &mut dyn TermPool, op: Operator, disequality: &mut LinearComb) -> Operator {
     match op {
-        Operator::GreaterEq if is_integer => op,
-
-        // In some cases, when the disequality is over integers, we can make the strengthening
-        // rules even stronger. Consider for instance the following example:
-        // ```
-        //     (step t1 (cl
-        //         (not (<= (- 1) n))
-        //         (not (<= (- 1) (+ n m)))
-        //         (<= (- 2) (* 2 n))
-        //         (not (<= m 1))
-        //     ) :rule la_generic :args (1 1 1 1))
-        // ```
-        // After the third disequality is negated and flipped, it becomes:
-        //     -2 * n > 2
-        // If nothing fancy is done, this would strengthen to:
-        //     -2 * n >= 3
-        // However, in this case, we can divide the disequality by 2 before strengthening, and then
-        // multiply it by 2 to get back. This would result in:
-        //     -2 * n > 2
-        //     -1 * n > 1
-        //     -1 * n >= 2
-        //     -2 * n >= 4
-        // This is a stronger statement, and follows from the original disequality. Importantly,
-        // this strengthening is sometimes necessary to check some `la_generic` steps. To find the
-        // value by which we should divide we have to take the greatest common divisor of the
-        // coefficients (including the constant value on the right-hand side), as this makes sure
-        // all coefficients will continue being integers after the division. This strengthening is
-        // still valid because, since the variables are integers, the result of their linear
-        // combination will always be a multiple of their GCD.
-        Operator::GreaterThan if is_integer => {
-            // Instead of dividing and then multiplying back, we just multiply the "+ 1"
-            // that is added by the strengthening rule
-            disequality.1.floor_mut();
-            disequality.1 += disequality.coefficients_gcd();
-            Operator::GreaterEq
-        }
         Operator::GreaterThan | Operator::GreaterEq => {
-            disequality.1.floor_mut();
-            disequality.1 += 1;
+            if !disequality.is_integral(pool) {
+                return op;
+            }
+            let gcd = disequality.coefficients_gcd();
+            disequality.1 /= &gcd;
+            if op == Operator::GreaterThan {
+                disequality.1.floor_mut();
+                disequality.1 += 1;
+            } else {
+                disequality.1.ceil_mut();
+            }
+            disequality.1 *= gcd;
             Operator::GreaterEq
         }
         Operator::LessThan | Operator::LessEq => unreachable!(),
@@ -260,7 +245,7 @@ fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Opera
     }
 }
 
-pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
+pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
@@ -292,8 +277,13 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
                 op = Operator::GreaterEq;
             }
 
+            // If the coefficient is zero, the disequality is not used at all
+            if a == 0 {
+                return Ok((Operator::Equals, LinearComb::new()));
+            }
+
             // Step 4: Apply strengthening rules
-            let op = strengthen(op, &mut disequality, &a);
+            let op = strengthen(pool, op, &mut disequality);
 
             // Step 5: Multiply disequality by a
             let a = match op {
@@ -310,8 +300,10 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
                 let (op, diseq) = item?;
                 let new_acc = acc.add(diseq);
                 let new_op = match (acc_op, op) {
+                    (Operator::GreaterThan, _) | (_, Operator::GreaterThan) => {
+                        Operator::GreaterThan
+                    }
                     (_, Operator::GreaterEq) => Operator::GreaterEq,
-                    (Operator::Equals, Operator::GreaterThan) => Operator::GreaterThan,
                     _ => acc_op,
                 };
                 Ok((new_op, new_acc))
-- 
2.43.0


From 99325f50f8170dfa7aebc32243110121e7ca2a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 08/81] fix: div is not treated as rational division when
 reading numeric constants

---
 carcara/src/ast/term.rs                       | 22 ++++++++++++++++---
 .../src/checker/rules/linear_arithmetic.rs    | 11 ++++++++--
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index d1ee88d..29d550e 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -888,13 +888,29 @@ impl Term {
     /// `Some` if the term is:
     ///
     /// - A real or integer constant
-    /// - An application of the `/` or `div` operators on two real or integer constants
+    /// - An application of the `/` or `div` operators on two real or integer constants, where the
+    ///   second is not zero
     /// - An application of the unary `-` operator on one of the two previous cases
+    ///
+    /// Note that an application of `div` denotes the (rounded) integer quotient.
     pub fn as_fraction(&self) -> Option<Rational> {
         fn as_unsigned_fraction(term: &Term) -> Option<Rational> {
             match term {
-                Term::Op(Operator::IntDiv | Operator::RealDiv, args) if args.len() == 2 => {
-                    Some(args[0].as_signed_number()? / args[1].as_signed_number()?)
+                Term::Op(op @ (Operator::IntDiv | Operator::RealDiv), args) if args.len() == 2 => {
+                    let (n, d) = (args[0].as_signed_number()?, args[1].as_signed_number()?);
+                    if d.is_zero() {
+                        return None;
+                    }
+                    if *op == Operator::RealDiv {
+                        return Some(n / d);
+                    }
+                    // The quotient is rounded such that the remainder is not negative
+                    let quotient = n / &d;
+                    Some(if d > 0 {
+                        quotient.floor()
+                    } else {
+                        quotient.ceil()
+                    })
                 }
                 _ => term.as_number(),
             }
diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 38346ab..443a505 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -251,8 +251,15 @@ pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResu
     let args: Vec<_> = args
         .iter()
         .map(|a| {
-            a.as_fraction()
-                .ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone()))
+            // Some solvers print fractional coefficients using the `div` operator
+            match match_term!((div n d) = a) {
+                Some((n, d)) => n
+                    .as_signed_number()
+                    .zip(d.as_signed_number().filter(|d| !d.is_zero()))
+                    .map(|(n, d)| n / d),
+                None => a.as_fraction(),
+            }
+            .ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone()))
         })
         .collect::<Result<_, _>>()?;
 
-- 
2.43.0


From 0cf2201957f9c587ad3e0f6fd367d7635af88f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 09/81] fix: la_mult_pos and la_mult_neg reject non-comparison
 terms instead of panicking

---
 carcara/src/checker/rules/extras.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index 3fa759e..6559c9c 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -6,7 +6,10 @@ use super::{
 };
 use crate::{
     ast::*,
-    checker::{error::CongruenceError, rules::assert_operation_len},
+    checker::{
+        error::{CongruenceError, LinearArithmeticError},
+        rules::assert_operation_len,
+    },
     utils::{MultiSet, MultiSetDifference},
 };
 
@@ -195,6 +198,17 @@ fn la_mult_generic(conclusion: &[Rc<Term>], is_pos: bool) -> RuleResult {
     );
 
     let (op, args) = original.as_op_err()?;
+    rassert!(
+        matches!(
+            op,
+            Operator::Equals
+                | Operator::LessThan
+                | Operator::GreaterThan
+                | Operator::LessEq
+                | Operator::GreaterEq
+        ),
+        LinearArithmeticError::InvalidDisequalityOp(original.clone())
+    );
     assert_operation_len(op, args, 2)?;
     let (l, r) = (&args[0], &args[1]);
 
-- 
2.43.0


From b4ca1ccb7647e9ecfa5a942e9f447e4f74b0dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 10/81] fix: poly_simp drops bit-vector monomials whose
 coefficient vanishes modulo 2^n

---
 carcara/src/checker/rules/polynomial.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carcara/src/checker/rules/polynomial.rs b/carcara/src/checker/rules/polynomial.rs
index 44fb8d3..fa64c9e 100644
--- a/carcara/src/checker/rules/polynomial.rs
+++ b/carcara/src/checker/rules/polynomial.rs
@@ -156,6 +156,8 @@ impl Polynomial {
             }
             *coeff = coeff.numer().clone().modulo(n).into();
         }
+        // Monomials whose coefficients are multiples of `n` vanish
+        self.0.retain(|_, coeff| !coeff.is_zero());
         if self.1.is_integer() {
             self.1 = self.1.numer().clone().modulo(n).into();
             Some(self)
-- 
2.43.0


From 96d20bb31796e1fed18d895aad1de8b485729e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 11/81] fix: div_simplify rejects division of zero by zero

---
 carcara/src/checker/rules/simplification.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index c784b95..5ac49cf 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -426,6 +426,10 @@ pub fn div_simplify(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
         None => (match_term_err!((/ n d) = left)?, false),
     };
 
+    if denom.as_signed_number().is_some_and(|d| d.is_zero()) {
+        return Err(CheckerError::DivOrModByZero);
+    }
+
     if numer == denom {
         rassert!(
             right.as_signed_number_err()? == 1,
@@ -436,9 +440,6 @@ pub fn div_simplify(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
         assert_eq(right, numer)
     } else {
         let denom = denom.as_signed_number_err()?;
-        if denom.is_zero() {
-            return Err(CheckerError::DivOrModByZero);
-        }
         let numer = numer.as_signed_number_err()?;
         let expected = if is_int_div {
             assert!(numer.is_integer() && denom.is_integer()); // This is guaranteed by the Alethe typing rules
-- 
2.43.0


From b0da64e4f993af99c7dad8a99d02ccdd6018cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 12/81] fix: bitblast_equal rejects equalities between
 non-bit-vector terms instead of panicking

---
 carcara/src/checker/rules/bitvectors.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/bitvectors.rs b/carcara/src/checker/rules/bitvectors.rs
index 1f36650..3674271 100644
--- a/carcara/src/checker/rules/bitvectors.rs
+++ b/carcara/src/checker/rules/bitvectors.rs
@@ -526,7 +526,10 @@ pub fn equality(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     let ((x, y), res) = match_term_err!((= (= x y) res) = &conclusion[0])?;
 
     let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
+        return Err(CheckerError::Explanation(format!(
+            "Could not get BV sort out of term {}",
+            x
+        )));
     };
     let x = build_term_vec(x, size, pool);
     let y = build_term_vec(y, size, pool);
-- 
2.43.0


From c9cb9f70af848fcc7886b296391f55cda1dae979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 13/81] fix: pbblast rules require the sums to range over every
 bit

---
 carcara/src/checker/rules/pb_blasting.rs | 60 +++++++++++++-----------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index fecddb2..0fbcff1 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -17,17 +17,10 @@ fn get_bit_width(x: &Rc<Term>, pool: &mut dyn TermPool) -> Result<usize, Checker
 }
 
 // Helper to check that a summation has the expected shape
-fn check_pbblast_sum(
-    pool: &mut dyn TermPool,
-    bitvector: &Rc<Term>,
-    sum: &[Rc<Term>],
-) -> RuleResult {
-    // Obtain the bitvector width from the pool.
-    let width = get_bit_width(bitvector, pool)?;
-
-    // The summation must have at most as many summands as the bitvector has bits.
+fn check_pbblast_sum(bitvector: &Rc<Term>, sum: &[Rc<Term>], width: usize) -> RuleResult {
+    // The summation must have exactly one summand for each of the `width` lowest bits.
     rassert!(
-        width >= sum.len(),
+        width == sum.len(),
         CheckerError::Explanation(format!(
             "Mismatched number of summands {} and bits {}",
             width,
@@ -81,13 +74,17 @@ fn check_pbblast_sum(
 
 // Helper to check that a summation has the expected shape
 // when the bitvector is a @pbbterm application "short-circuiting"
-fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> RuleResult {
-    // The summation must have at most as many summands as the bitvector has bits.
+fn check_pbblast_sum_short_circuit(
+    pbbterm: &[Rc<Term>],
+    sum: &[Rc<Term>],
+    width: usize,
+) -> RuleResult {
+    // The summation must have exactly one summand for each of the `width` lowest bits.
     rassert!(
-        pbbterm.len() >= sum.len(),
+        width == sum.len() && pbbterm.len() >= width,
         CheckerError::Explanation(format!(
             "Mismatched number of summands {} and bits {}",
-            pbbterm.len(),
+            width,
             sum.len()
         ))
     );
@@ -121,21 +118,23 @@ fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> Ru
 /// A helper that checks the two summations that occur in a pseudo–Boolean constraint.
 /// Here, `left_sum` and `right_sum` come from two bitvectors `left_bv` and `right_bv` respectively.
 /// (The overall constraint is something like `(>= (- (+ left_sum) (+ right_sum)) constant)`.)
+/// Both summations must range over the `width` lowest bits, that is, over all the bits for unsigned
+/// relations, and over all bits but the sign bit for signed ones.
 fn check_pbblast_constraint(
-    pool: &mut dyn TermPool,
     left_bv: &Rc<Term>,
     right_bv: &Rc<Term>,
     left_sum: &[Rc<Term>],
     right_sum: &[Rc<Term>],
+    width: usize,
 ) -> RuleResult {
     if let Some(pbb_l) = match_term!((pbbterm ...) = left_bv) {
         // Case when x is application of `@pbbterm` so we must short-circuit the indexing
         let pbb_r = match_term_err!((pbbterm ...) = right_bv)?;
-        check_pbblast_sum_short_circuit(pbb_l, left_sum)?;
-        check_pbblast_sum_short_circuit(pbb_r, right_sum)
+        check_pbblast_sum_short_circuit(pbb_l, left_sum, width)?;
+        check_pbblast_sum_short_circuit(pbb_r, right_sum, width)
     } else {
-        check_pbblast_sum(pool, left_bv, left_sum)?;
-        check_pbblast_sum(pool, right_bv, right_sum)
+        check_pbblast_sum(left_bv, left_sum, width)?;
+        check_pbblast_sum(right_bv, right_sum, width)
     }
 }
 
@@ -152,7 +151,8 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 
     // Check that the summations have the correct structure.
     // (For equality the order is: sum_x for x and sum_y for y.)
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    let width = get_bit_width(x, pool)?;
+    check_pbblast_constraint(x, y, sum_x, sum_y, width)
 }
 
 /// Implements the unsigned-less-than rule.
@@ -167,7 +167,8 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    let width = get_bit_width(x, pool)?;
+    check_pbblast_constraint(y, x, sum_y, sum_x, width)
 }
 
 /// Implements the unsigned-greater-than rule.
@@ -183,7 +184,8 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvugt the summations appear in the same order as in equality.
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    let width = get_bit_width(x, pool)?;
+    check_pbblast_constraint(x, y, sum_x, sum_y, width)
 }
 
 /// Implements the unsigned-greater-or-equal rule.
@@ -198,7 +200,8 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    let width = get_bit_width(x, pool)?;
+    check_pbblast_constraint(x, y, sum_x, sum_y, width)
 }
 
 /// Implements the unsigned-less-or-equal rule.
@@ -213,7 +216,8 @@ pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    let width = get_bit_width(x, pool)?;
+    check_pbblast_constraint(x, y, sum_x, sum_y, width)
 }
 
 /// Helper that checks the the `sign` term has the format -(2<sup>n-1</sup>) x<sub>n-1</sub>
@@ -278,7 +282,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(y, x, sum_y, sum_x, n - 1)
 }
 
 /// Implements the signed-greater-than rule.
@@ -299,7 +303,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(x, y, sum_x, sum_y, n - 1)
 }
 
 /// Implements the signed-greater-equal rule.
@@ -320,7 +324,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(x, y, sum_x, sum_y, n - 1)
 }
 
 /// Implements the signed-less-equal rule.
@@ -342,7 +346,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvsle the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(y, x, sum_y, sum_x, n - 1)
 }
 
 /// Implements the blasting of a bitvector variable
-- 
2.43.0


From e209d663113e602a736f9d2deddd1ffc409b3d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 14/81] fix: pbblast rules reject empty clauses instead of
 panicking

---
 carcara/src/checker/rules/pb_blasting.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 0fbcff1..7e9a75a 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -1,4 +1,4 @@
-use super::{assert_eq, assert_num_args, RuleArgs, RuleResult};
+use super::{assert_clause_len, assert_eq, assert_num_args, RuleArgs, RuleResult};
 use crate::{
     ast::{Binder, Rc, Sort, Term, TermPool},
     checker::{error::CheckerError, rules::cutting_planes::split_summation},
@@ -142,6 +142,7 @@ fn check_pbblast_constraint(
 /// The expected shape is:
 ///    `(= (= x y) (= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (= x y) (= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -159,6 +160,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 /// The expected shape is:
 ///    `(= (bvult x y) (>= (- (+ sum_y) (+ sum_x)) 1))`
 pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), _)) =
         match_term_err!((= (bvult x y) (>= (- sum_y sum_x) 1)) = &conclusion[0])?;
 
@@ -176,6 +178,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvugt x y) (>= (- (+ sum_x) (+ sum_y)) 1))`
 pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (bvugt x y) (>= (- sum_x sum_y) 1)) = &conclusion[0])?;
 
@@ -193,6 +196,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvuge x y) (>= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), ())) =
         match_term_err!((= (bvuge x y) (>= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -209,6 +213,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvule x y) (>= (- (+ sum_y) (+ sum_x)) 0))`
 pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), ())) =
         match_term_err!((= (bvule x y) (>= (- sum_y sum_x) 0)) = &conclusion[0])?;
 
@@ -269,6 +274,7 @@ fn check_pbblast_signed_relation(n: usize, sign: &Rc<Term>, bitvector: &Rc<Term>
 /// The expected shape is:
 ///    `(= (bvslt x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 1))`
 pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvslt x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -290,6 +296,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsgt x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 1))`
 pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsgt x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -311,6 +318,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsge x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 0))`
 pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsge x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -332,6 +340,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsle x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 0))`
 pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvsle x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -351,6 +360,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the blasting of a bitvector variable
 pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (x, pbs) = match_term_err!((= x (pbbterm ...)) = &conclusion[0])?;
 
     for (i, pb) in pbs.iter().enumerate() {
@@ -375,6 +385,7 @@ pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
 
 /// Implements the blasting of a constant
 pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (bv, pbs) = match_term_err!((= bv (pbbterm ...)) = &conclusion[0])
         .map_err(|_| CheckerError::Explanation("Malformed @pbbterm equality".into()))?;
 
@@ -451,6 +462,7 @@ fn get_bitvector_terms(bv: &Rc<Term>, pool: &mut dyn TermPool) -> Vec<Rc<Term>>
 
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvxor x y) (pbbterm ...)) = &conclusion[0])?;
 
@@ -514,6 +526,7 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the bitwise and operation.
 pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvand x y) (pbbterm ...)) = &conclusion[0])?;
 
@@ -570,6 +583,7 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvxor rule
 pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
@@ -616,6 +630,7 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvand rule
 pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
-- 
2.43.0


From b05bf82177d79538cbecddaa78f7e2a58eefe6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 15/81] fix: pbblast_bvand_ith_bit compares the operands of its
 last conjunct

---
 carcara/src/checker/rules/pb_blasting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 7e9a75a..79197a3 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -654,7 +654,7 @@ pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     assert_eq(rc, &the_r)?;
 
     // c3 : (>= (+ r 1) (+ x y))
-    let ((rc, _), (x, y)) = match_term_err!((>= (+ r 1) (+ x y)) = c3)?;
+    let ((rc, _), (xc, yc)) = match_term_err!((>= (+ r 1) (+ x y)) = c3)?;
     assert_eq(xc, x)?;
     assert_eq(yc, y)?;
     assert_eq(rc, &the_r)?;
-- 
2.43.0


From 1511e76b29bb6a6935cbf8946bee575e80792cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 16/81] fix: pbblast_pbbconst does not truncate bits to 32-bit
 integers

---
 carcara/src/checker/rules/pb_blasting.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 79197a3..38944ac 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -405,17 +405,14 @@ pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
         .iter()
         .enumerate()
         .try_fold(Integer::new(), |acc, (i, term)| {
-            let pb = term
-                .as_integer()
-                .ok_or(CheckerError::Explanation(format!(
-                    "Non-integer term at position {}",
-                    i
-                )))?
-                .to_i32_wrapping();
-
-            match pb {
-                0 => Ok(acc),
-                1 => {
+            let pb = term.as_integer().ok_or(CheckerError::Explanation(format!(
+                "Non-integer term at position {}",
+                i
+            )))?;
+
+            match pb.to_i32() {
+                Some(0) => Ok(acc),
+                Some(1) => {
                     let exponent = i.try_into().unwrap();
                     let increment = Integer::i_pow_u(2, exponent);
                     Ok(&acc + Integer::from(increment))
-- 
2.43.0


From 85a57c6c062928fa46274deb328ca9ad2cece2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 17/81] fix: pbblast bitwise rules do not capture the variable
 of their choice terms

---
 carcara/src/checker/rules/pb_blasting.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 38944ac..02268af 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -457,6 +457,21 @@ fn get_bitvector_terms(bv: &Rc<Term>, pool: &mut dyn TermPool) -> Vec<Rc<Term>>
     }
 }
 
+/// Checks that the bits of the operands do not mention the variable `z` which is bound by the choice
+/// terms of these rules, since it would be captured
+fn assert_no_capture(bits: [&Rc<Term>; 2], pool: &mut dyn TermPool) -> RuleResult {
+    for bit in bits {
+        rassert!(
+            !pool
+                .free_vars(bit)
+                .iter()
+                .any(|var| var.as_var() == Some("z")),
+            CheckerError::Explanation(format!("Operand {bit} contains the bound variable \"z\""))
+        );
+    }
+    Ok(())
+}
+
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
@@ -469,6 +484,7 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     // Zip three lists into tuples
     for ((bc, xi), yi) in bit_constraints.iter().zip(xs.iter()).zip(ys.iter()) {
         let (bindings, (c1, c2, c3, c4)) = match_term_err!((choice ... (and c1 c2 c3 c4)) = bc)?;
+        assert_no_capture([xi, yi], pool)?;
 
         // Check z -> Int
         let (z_name, z_type) = &bindings[0];
@@ -533,6 +549,7 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     // Zip three lists into tuples
     for ((bc, xi), yi) in bit_constraints.iter().zip(xs.iter()).zip(ys.iter()) {
         let (bindings, (c1, c2, c3)) = match_term_err!((choice ... (and c1 c2 c3)) = bc)?;
+        assert_no_capture([xi, yi], pool)?;
 
         // Check z -> Int
         let (z_name, z_type) = &bindings[0];
@@ -586,6 +603,8 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     let y = &args[1];
     let (c1, c2, c3, c4) = match_term_err!((and c1 c2 c3 c4) = &conclusion[0])?;
 
+    assert_no_capture([x, y], pool)?;
+
     // Build the expected choice term
     let the_r = build_term!(pool,(choice (("z" Int)) (and
          (>= (+ {x.clone()} {y.clone()}) (let z Int))
@@ -633,6 +652,8 @@ pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
     let y = &args[1];
     let (c1, c2, c3) = match_term_err!((and c1 c2 c3) = &conclusion[0])?;
 
+    assert_no_capture([x, y], pool)?;
+
     // Build the expected choice term
     let the_r = build_term!(pool,(choice (("z" Int)) (and
          (>= {x.clone()} (let z Int))
-- 
2.43.0


From c7cc87b657e0c2c4f972eb2d68faad440c0d2075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 18/81] fix: cutting planes rules add up repeated literals

---
 carcara/src/checker/rules/cutting_planes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 7d61d65..f435f7e 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -48,7 +48,7 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
             };
 
         let coeff = coeff.as_integer_err()?;
-        hm.insert(literal, coeff);
+        *hm.entry(literal).or_default() += coeff;
     }
     Ok(hm)
 }
-- 
2.43.0


From dc15eb7f899a73ed0493e00930aebb07e7b6c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 19/81] fix: cp_addition compares coefficients that are zero in
 the conclusion

---
 carcara/src/checker/rules/cutting_planes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index f435f7e..311a704 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -206,9 +206,6 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 
     // Verify pseudo-boolean sums match
     for (literal, coeff_c) in &pbsum_c {
-        if *coeff_c == 0 {
-            continue;
-        }
         match pbsum_lr_reduced.get(literal) {
             Some(coeff_lr_reduced) => {
                 rassert!(
@@ -216,6 +213,8 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
                     CheckerError::ExpectedInteger(coeff_lr_reduced.clone(), conclusion.clone())
                 );
             }
+            // Zero coefficient is ignored.
+            None if *coeff_c == 0 => (),
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-- 
2.43.0


From c22f0bca4b533c7e316c8ce4a7c41d2d4082a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 20/81] fix: cp_multiplication rejects negative scalars

---
 carcara/src/checker/rules/cutting_planes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 311a704..c2974d9 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -238,6 +238,11 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
     assert_num_args(args, 1)?;
     let scalar: Integer = args[0].as_integer_err()?;
 
+    // Multiplying by a negative number would flip the inequality
+    if scalar < 0 {
+        return Err(CheckerError::ExpectedNonnegInteger(args[0].clone()));
+    }
+
     // Check there is exactly one conclusion
     assert_clause_len(conclusion, 1)?;
     let conclusion = &conclusion[0];
-- 
2.43.0


From 76fd3081f0124b6b7e9331757e43b307d5f68ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 21/81] fix: cutting planes rules reject empty clauses instead
 of panicking

---
 carcara/src/checker/rules/cutting_planes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index c2974d9..f224aaa 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -277,6 +277,7 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
 
 pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one arg
@@ -328,6 +329,7 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
     assert_num_args(args, 0)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one conclusion
@@ -364,6 +366,7 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
 }
 
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 1)?;
     // TODO: Set args type to FF 2
 
-- 
2.43.0


From e98df1962aa3ec6411990e77b1a3ea95d1b433d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 22/81] fix: cp_saturation rejects negative coefficients and
 clamps to non-negative bounds

---
 carcara/src/checker/rules/cutting_planes.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index f224aaa..ec7aded 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -352,9 +352,15 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
 
     // Verify saturation of variables match
+    let bound = Ord::max(constant_p, Integer::new());
     for (literal, coeff_p) in pbsum_p {
+        // Saturation is only valid for normalized inequalities
+        rassert!(
+            coeff_p >= 0,
+            CheckerError::Explanation(format!("Negative coefficient {coeff_p} in premise"))
+        );
         if let Some(coeff_c) = pbsum_c.get(&literal) {
-            let expected = Ord::min(&constant_p, &coeff_p);
+            let expected = Ord::min(&bound, &coeff_p);
             rassert!(
                 expected == coeff_c,
                 CheckerError::ExpectedInteger(expected.clone(), conclusion.clone())
-- 
2.43.0


From 10736c41794ddcf55f3a33e442528b314a7eeef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 23/81] fix: cutting planes rules identify literals by term
 rather than by printed name

---
 carcara/src/checker/rules/cutting_planes.rs | 43 ++++++++-------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index ec7aded..46027b6 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -7,7 +7,10 @@ use crate::checker::Rc;
 use rug::Integer;
 use std::collections::HashMap;
 
-type PbHash = HashMap<String, Integer>;
+/// A pseudo-boolean literal: a term, and whether it is negated
+type PbLiteral = (bool, Rc<Term>);
+
+type PbHash = HashMap<PbLiteral, Integer>;
 
 // Helper to unwrap a summation list
 pub fn split_summation(sum_term: &Rc<Term>) -> &[Rc<Term>] {
@@ -39,10 +42,10 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
         let (coeff, literal) =
             // Negated literal  (* c (- 1 x1))
             if let Some((coeff, (_, literal))) = match_term!((* coeff (- 1 literal)) = term) {
-                (coeff, format!("~{}",literal))
+                (coeff, (true, literal.clone()))
             // Plain literal    (* c x1)
             } else if let Some((coeff, literal)) = match_term!((* coeff literal) = term) {
-                (coeff, format!("{}",literal))
+                (coeff, (false, literal.clone()))
             } else {
                 return Err(CheckerError::Explanation(format!("Term is neither plain nor negated: {}",term)));
             };
@@ -70,36 +73,24 @@ fn add_pbsums(pbsum_a: &PbHash, pbsum_b: &PbHash) -> PbHash {
     res
 }
 
-fn is_negated_literal(lit: &str) -> bool {
-    lit.starts_with('~')
-}
-
-trait NegatedLiterals {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer>;
-}
-
-impl NegatedLiterals for PbHash {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer> {
-        if let Some(plain_lit) = lit.strip_prefix('~') {
-            self.get(plain_lit)
-        } else {
-            self.get(&format!("~{}", lit))
-        }
-    }
+fn opposite_literal((negated, term): &PbLiteral) -> PbLiteral {
+    (!negated, term.clone())
 }
 
 /// Cancel out opposite coefficients
 fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
     let mut slack = Integer::from(0);
     let mut res = pbsum.clone();
-    let mut changes: Vec<(String, Integer)> = Vec::new();
+    let mut changes: Vec<(PbLiteral, Integer)> = Vec::new();
 
     for lit in res.keys() {
-        if is_negated_literal(lit) {
+        let (is_negated, _) = lit;
+        if *is_negated {
             continue;
         }
+        let opposite = opposite_literal(lit);
         let pos = res.get(lit);
-        let neg = res.get_opposite(lit);
+        let neg = res.get(&opposite);
         if neg.is_none() {
             continue;
         }
@@ -112,11 +103,11 @@ fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
         if pos > neg {
             let diff = pos.clone() - neg;
             changes.push((lit.clone(), diff)); // Update lit to diff
-            changes.push((format!("~{lit}"), Integer::from(0))); // Set ~lit to 0
+            changes.push((opposite, Integer::from(0))); // Set ~lit to 0
         } else {
             let diff = neg.clone() - pos;
             changes.push((lit.clone(), Integer::from(0))); // Set lit to 0
-            changes.push((format!("~{lit}"), diff)); // Update ~lit to neg - pos
+            changes.push((opposite, diff)); // Update ~lit to neg - pos
         }
     }
 
@@ -141,7 +132,7 @@ fn assert_pbsum_subset_keys(pbsum_a: &PbHash, pbsum_b: &PbHash) -> Result<(), Ch
 
         if pbsum_b.get(key).is_none() {
             return Err(CheckerError::Explanation(format!(
-                "Key {} of {:?} not found in {:?}",
+                "Key {:?} of {:?} not found in {:?}",
                 key, pbsum_b, pbsum_a
             )));
         }
@@ -218,7 +209,7 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-                    "Literal of the conclusion not present in either premises: {}",
+                    "Literal of the conclusion not present in either premises: {:?}",
                     literal
                 )));
             }
-- 
2.43.0


From a89249e67eb2b00219f2ba6b0a3c55015f532ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 24/81] fix: cp_literal rejects numerals and sums that are not
 pseudo-boolean literals

---
 carcara/src/checker/rules/cutting_planes.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 46027b6..278c90b 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -362,9 +362,29 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     Ok(())
 }
 
+/// Whether a term can be a pseudo-boolean literal, or a non-negative multiple of one
+fn may_be_literal(term: &Rc<Term>) -> bool {
+    if let Some((coeff, inner)) = match_term!((* coeff inner) = term) {
+        return coeff.as_integer().is_some_and(|c| c >= 0) && may_be_literal(inner);
+    }
+    if let Some((_, inner)) = match_term!((- 1 inner) = term) {
+        // The negation of a literal, which is not itself a multiple
+        return match_term!((* c l) = inner).is_none() && may_be_literal(inner);
+    }
+    match term.as_ref() {
+        Term::Const(c) => matches!(c, Constant::Integer(i) if *i == 0 || *i == 1),
+        Term::Op(Operator::Add | Operator::Sub | Operator::Mult, _) => false,
+        _ => true,
+    }
+}
+
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 1)?;
+    rassert!(
+        may_be_literal(&args[0]),
+        CheckerError::Explanation(format!("Not a pseudo-boolean literal: {}", args[0]))
+    );
     // TODO: Set args type to FF 2
 
     if let Some(((c, (_, l)), _)) = match_term!((>= (* c (- 1 l)) 0) = &conclusion[0]) {
-- 
2.43.0


From a051b17585270e224f41366dcb7ac8ae164fa794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 25/81] fix: cp_normalize does not identify the negation of a
 literal with the literal

---
 carcara/src/checker/rules/cutting_planes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 278c90b..5b0fa2b 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -486,6 +486,11 @@ impl PartialEq for CoeffTimesVar<'_> {
             return self.negated == other.negated;
         }
 
+        // Different variables under the same negation are different
+        if self.negated == other.negated {
+            return false;
+        }
+
         // Different vars can only be equal if the `!negated` var
         // has shape `(- 1 l)`  and the negated has shape `l`
 
-- 
2.43.0


From 3e9de2068a3a3ed96e68a2096e68eafc9c994856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 26/81] fix: cp_normalize negates the operand of a unary minus

---
 carcara/src/checker/rules/cutting_planes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 5b0fa2b..8a938c4 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -590,6 +590,12 @@ fn flatten_addition_tree(
 ) -> Result<(Vec<CoeffTimesVar<'_>>, Integer), CheckerError> {
     match term.as_ref() {
         Term::Op(Operator::Add, args) => accumulate_sum(args),
+        // Unary minus
+        Term::Op(Operator::Sub, args) if args.len() == 1 => {
+            let (mut va, ca) = flatten_addition_tree(&args[0])?;
+            negate_sum(&mut va);
+            Ok((va, -ca))
+        }
         Term::Op(Operator::Sub, args) => {
             let (mut va, ca) = flatten_addition_tree(&args[0])?;
             let (mut vb, cb) = accumulate_sum(&args[1..])?;
-- 
2.43.0


From dd4d1d4560f0e3800458d79c4e5a2869405781fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 27/81] fix: local assumptions are not discharged if the end
 step's rule is allowed or ignored

---
 carcara/src/checker/shared.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 0cfc64d..6cf7c21 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -100,7 +100,17 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
 ) -> RuleResult {
     let time = Instant::now();
 
+    // The local assumptions of a subproof must be discharged even if its end step is not itself
+    // checked
+    let check_end_step = || match context.current_subproof {
+        Some(subproof) if context.is_end_step => {
+            check_discharge_shared(subproof, context.subproof_depth, &step.discharge)
+        }
+        _ => Ok(()),
+    };
+
     if context.config.allowed_rules.contains(&step.rule) {
+        check_end_step()?;
         *context.is_holey = true;
         return Ok(());
     }
@@ -113,6 +123,7 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
     let rule = match get_rule_shared(&step.rule, context.config.elaborated) {
         Some(r) => r,
         None if context.config.ignore_unknown_rules => {
+            check_end_step()?;
             *context.is_holey = true;
             return Ok(());
         }
@@ -129,11 +140,7 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
     // Execute the rule with the provided arguments
     rule(rule_args)?;
 
-    if context.is_end_step {
-        if let Some(subproof) = context.current_subproof {
-            check_discharge_shared(subproof, context.subproof_depth, &step.discharge)?;
-        }
-    }
+    check_end_step()?;
 
     if let Some(s) = stats {
         let elapsed = time.elapsed();
-- 
2.43.0


From ab9d29f2520411271bd113ab1ec39940fbdb0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 28/81] fix: the values of a let term are ignored when
 computing its free variables

---
 carcara/src/ast/pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index cdeed27..8de5c27 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -428,6 +428,10 @@ impl PrimitivePool {
                     let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
                     vars.swap_remove(&term);
                 }
+                // The variables are not bound in the values
+                for (_, value) in bindings {
+                    vars.extend(self.free_vars_with_priorities(value, prior_pools));
+                }
                 vars
             }
             Term::Var(..) => {
-- 
2.43.0


From 3dabc4f8ee52c85fbc11caa8fd8ee9b389fb75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 29/81] fix: stale cached results after removing a mapping from
 a substitution

---
 carcara/src/ast/substitution.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8360ea0..c4c9b70 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -138,6 +138,8 @@ impl Substitution {
         let was_present = self.map.swap_remove(x).is_some();
         if was_present {
             self.should_be_renamed = None;
+            // The cached results may be different without the `x -> t` mapping
+            self.cache.clear();
         }
     }
 
-- 
2.43.0


From c57b45a07689c4c3c10c73c8b3b8c590f92e1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 30/81] fix: renaming in substitutions captures free variables
 and mishandles let terms

---
 carcara/src/ast/substitution.rs | 51 ++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index c4c9b70..9b8382f 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -216,7 +216,7 @@ impl Substitution {
             }
             Term::Let(binding_list, inner) => {
                 let (new_bindings, mut renaming) =
-                    self.rename_binding_list(pool, binding_list, true);
+                    self.rename_binding_list(pool, binding_list, inner, true);
                 let new_term = if renaming.is_empty() {
                     self.apply(pool, inner)
                 } else {
@@ -320,7 +320,8 @@ impl Substitution {
             return original_term.clone();
         }
 
-        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, false);
+        let (new_bindings, mut renaming) =
+            self.rename_binding_list(pool, binding_list, inner, false);
         let new_term = if renaming.is_empty() {
             self.apply(pool, inner)
         } else {
@@ -337,15 +338,35 @@ impl Substitution {
     /// new binding list, with the bindings renamed. If no variable needs to be renamed, this just
     /// returns a clone of the binding list and an empty substitution. The name chosen when renaming
     /// a variable is the old name with `'` appended. If the binding list is a "value" list, like in
-    /// a `let` or `lambda` term, `is_value_list` should be true.
+    /// a `let` term, `is_value_list` should be true.
     fn rename_binding_list(
         &mut self,
         pool: &mut dyn TermPool,
         binding_list: &[SortedVar],
+        inner: &Rc<Term>,
         is_value_list: bool,
     ) -> (BindingList, Self) {
+        self.compute_should_be_renamed(pool);
+        let should_be_renamed = self.should_be_renamed.clone().unwrap();
+
         let mut new_substitution = Self::empty();
         let mut new_vars = IndexSet::new();
+
+        // If no variable needs to be renamed, the binding list is kept as it is. Otherwise, the new
+        // names may not capture the free variables of the inner term
+        let needs_renaming = binding_list
+            .iter()
+            .any(|(var, _)| should_be_renamed.contains(var));
+        let free_names: IndexSet<String> = if needs_renaming {
+            pool.free_vars(inner)
+                .iter()
+                .filter_map(|v| v.as_var().map(str::to_owned))
+                .filter(|name| binding_list.iter().all(|(var, _)| var != name))
+                .collect()
+        } else {
+            IndexSet::new()
+        };
+
         let new_binding_list = binding_list
             .iter()
             .map(|(var, value)| {
@@ -357,23 +378,19 @@ impl Substitution {
                     value.clone()
                 };
 
-                let mut changed = false;
                 let mut new_var = var.clone();
 
-                // We keep adding `'`s to the variable name as long as it is necessary
-                loop {
-                    if !new_vars.contains(&new_var)
-                        && !self.should_be_renamed.as_ref().unwrap().contains(&new_var)
+                if needs_renaming {
+                    // We keep adding `'`s to the variable name as long as it is necessary
+                    while new_vars.contains(&new_var)
+                        || should_be_renamed.contains(&new_var)
+                        || free_names.contains(&new_var)
                     {
-                        break;
+                        new_var.push('\'');
                     }
-                    new_var.push('\'');
-                    changed = true;
-                }
 
-                if changed {
                     // If the variable was renamed, we have to add this renaming to the resulting
-                    // substitution
+                    // substitution. Even if it was not, it may shadow a previous variable that was
                     let old = pool.add((var.clone(), sort.clone()).into());
                     let new = pool.add((new_var.clone(), sort).into());
 
@@ -383,10 +400,10 @@ impl Substitution {
                     new_vars.insert(new_var.clone());
                 }
 
-                // If the binding list is a "value" list, we need to apply the current substitution
-                // to each variable's value
+                // If the binding list is a "value" list, we need to apply the substitution to each
+                // variable's value. The variables of the list are not bound in the values
                 let new_value = if is_value_list {
-                    new_substitution.apply(pool, value)
+                    self.apply(pool, value)
                 } else {
                     value.clone()
                 };
-- 
2.43.0


From babf21e14f2e9cbbb8fc753dd4b2d05632c9eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 31/81] fix: qnt_cnf captures free variables when prenexing

---
 carcara/src/checker/rules/quantifier.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/carcara/src/checker/rules/quantifier.rs b/carcara/src/checker/rules/quantifier.rs
index a7a925e..285ee64 100644
--- a/carcara/src/checker/rules/quantifier.rs
+++ b/carcara/src/checker/rules/quantifier.rs
@@ -294,6 +294,21 @@ pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         )));
     }
 
+    // The variables that were bound inside of the left-hand side term may not capture its free
+    // variables
+    let left_free_vars: IndexSet<_> = {
+        let (l, _) = match_term_err!((or (not l) r) = &conclusion[0])?;
+        pool.free_vars(l)
+    };
+    if let Some((var, _)) = r_bindings
+        .iter()
+        .find(|&b| left_free_vars.contains(&pool.add(b.clone().into())))
+    {
+        return Err(CheckerError::Quant(QuantifierError::NewBindingIntroduced(
+            var.clone(),
+        )));
+    }
+
     let selected_clause = clauses
         .iter()
         .find(|&clause| clause == phi_prime)
-- 
2.43.0


From b4b3a585ba80a5e68a69604dbb287cf9204ac9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 32/81] fix: closing a subproof exports conclusions that depend
 on its context

---
 carcara/src/checker/error.rs          |  12 ++
 carcara/src/checker/rules/extras.rs   |  32 ++++-
 carcara/src/checker/rules/subproof.rs | 195 +++++++++++++++++++++-----
 carcara/src/checker/shared.rs         |  20 +++
 4 files changed, 220 insertions(+), 39 deletions(-)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 98a25af..8f47af2 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -399,6 +399,18 @@ pub enum SubproofError {
     #[error("binding '{0}' was not introduced in context")]
     BindingIsNotInContext(String),
 
+    #[error("rule cannot close a subproof whose anchor has arguments")]
+    RuleDoesntCloseContext,
+
+    #[error("assignment to '{0}' doesn't match the bindings in the conclusion")]
+    WrongAssignment(String),
+
+    #[error("variable '{0}', which is assigned by the anchor, appears free in '{1}'")]
+    AssignedVarIsFree(String, Rc<Term>),
+
+    #[error("variable '{0}' conflicts with the substitution of an outer context")]
+    OuterContextConflict(String),
+
     #[error("expected {0} bindings in 'let' term, got {1}")]
     WrongNumberOfLetBindings(usize, usize),
 
diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index 6559c9c..ff4849e 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -1,17 +1,18 @@
 //! This module contains rules that are not yet in the specification for the Alethe format.
 
 use super::{
-    assert_clause_len, assert_eq, assert_num_premises, get_premise_term, CheckerError,
-    EqualityError, RuleArgs, RuleResult,
+    assert_clause_len, assert_eq, assert_num_premises, get_premise_term,
+    subproof::assert_closes_context, CheckerError, EqualityError, RuleArgs, RuleResult,
 };
 use crate::{
     ast::*,
     checker::{
-        error::{CongruenceError, LinearArithmeticError},
+        error::{CongruenceError, LinearArithmeticError, SubproofError},
         rules::assert_operation_len,
     },
     utils::{MultiSet, MultiSetDifference},
 };
+use indexmap::IndexSet;
 
 pub fn reordering(RuleArgs { conclusion, premises, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
@@ -117,6 +118,8 @@ pub fn bind_let(
     RuleArgs {
         conclusion,
         premises,
+        pool,
+        context,
         previous_command,
         ..
     }: RuleArgs,
@@ -136,6 +139,29 @@ pub fn bind_let(
         return Err(EqualityError::ExpectedEqual(l_bindings.clone(), r_bindings.clone()).into());
     }
 
+    let [l_vars, r_vars] = [l_bindings, r_bindings].map(|b| {
+        b.iter()
+            .map(|(x, t)| {
+                let sort = pool.sort(t);
+                pool.add((x.clone(), sort).into())
+            })
+            .collect::<IndexSet<_>>()
+    });
+    assert_closes_context(pool, context, &conclusion[0], &l_vars, &r_vars, false)?;
+
+    // The variables of the `let` terms are arbitrary, so the anchor may not assign them
+    for (var, value) in context
+        .last()
+        .iter()
+        .flat_map(|c| &c.as_ref().unwrap().args)
+        .filter_map(AnchorArg::as_assign)
+    {
+        rassert!(
+            value.as_var() == Some(var),
+            SubproofError::WrongAssignment(var.clone())
+        );
+    }
+
     let mut premises_iter = premises
         .iter()
         .map(|p| match_term_err!((= t u) = get_premise_term(p)?))
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 2544335..f82969a 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -47,6 +47,89 @@ pub fn subproof(
     assert_polyeq(conclusion.last().unwrap(), &phi, polyeq_time)
 }
 
+/// Checks that the conclusion of a subproof that closes a context may be exported to the outer
+/// contexts. `left` and `right` are the variables bound by the left- and right-hand side of the
+/// conclusion.
+///
+/// The steps inside the subproof were checked using the cumulative substitution of all contexts. We
+/// must therefore make sure that the variables bound in the conclusion mean the same thing inside
+/// and outside the subproof, that is:
+/// - only bound variables are assigned, and an assigned variable is not free in the right-hand side
+/// - the value of an assignment doesn't depend on a previous assignment of the same anchor
+/// - a variable that is bound in the conclusion but isn't introduced by the anchor is not affected
+///   by the substitution of the outer contexts
+/// - the outer substitution doesn't affect a free variable of the conclusion differently because of
+///   the variables introduced or bound in this subproof
+pub(super) fn assert_closes_context(
+    pool: &mut dyn TermPool,
+    context: &mut ContextStack,
+    conclusion: &Rc<Term>,
+    left: &IndexSet<Rc<Term>>,
+    right: &IndexSet<Rc<Term>>,
+    allow_dependent: bool,
+) -> RuleResult {
+    let name = |v: &Rc<Term>| v.as_var().unwrap().to_owned();
+
+    let args = match context.last() {
+        Some(c) => c.as_ref().unwrap().args.clone(),
+        None => Vec::new(),
+    };
+    let (_, rhs) = match_term_err!((= l r) = conclusion)?;
+    let rhs_free_vars = pool.free_vars(rhs);
+
+    let (mut assigned, mut fixed) = (IndexSet::new(), IndexSet::new());
+    for arg in &args {
+        match arg {
+            AnchorArg::Variable(var) => {
+                fixed.insert(pool.add(var.clone().into()));
+            }
+            AnchorArg::Assign(var, value) => {
+                let var = pool.add(var.clone().into());
+                rassert!(
+                    left.contains(&var),
+                    SubproofError::WrongAssignment(name(&var))
+                );
+                rassert!(
+                    var == *value || !rhs_free_vars.contains(&var),
+                    SubproofError::AssignedVarIsFree(name(&var), rhs.clone())
+                );
+                if !allow_dependent {
+                    let value_free_vars = pool.free_vars(value);
+                    if let Some(v) = assigned.iter().find(|&v| value_free_vars.contains(v)) {
+                        return Err(SubproofError::WrongAssignment(name(v)).into());
+                    }
+                }
+                if var != *value {
+                    assigned.insert(var);
+                }
+            }
+        }
+    }
+
+    for v in left.union(right) {
+        if !assigned.contains(v) && !fixed.contains(v) && context.apply_previous(pool, v) != *v {
+            return Err(SubproofError::OuterContextConflict(name(v)).into());
+        }
+    }
+
+    for v in &pool.free_vars(conclusion) {
+        let value = context.apply_previous(pool, v);
+        if value == *v {
+            continue;
+        }
+        let value_free_vars = pool.free_vars(&value);
+        let is_captured = left
+            .union(right)
+            .chain(&fixed)
+            .any(|u| value_free_vars.contains(u));
+        rassert!(
+            !is_captured && !fixed.contains(v),
+            SubproofError::OuterContextConflict(name(v))
+        );
+    }
+    Ok(())
+}
+
 pub fn bind(
     RuleArgs {
         conclusion,
@@ -88,48 +171,52 @@ pub fn bind(
         return Err(SubproofError::BindBindingIsFreeVarInPhi(y).into());
     }
 
+    rassert!(
+        l_bindings.len() == r_bindings.len(),
+        SubproofError::BindDifferentNumberOfBindings(l_bindings.len(), r_bindings.len())
+    );
+
+    assert_closes_context(
+        pool,
+        context,
+        &conclusion[0],
+        &l_bindings,
+        &r_bindings,
+        false,
+    )?;
+
     // Since we are closing a subproof, we only care about the substitutions that were introduced
     // in it
     let context = context.last().unwrap();
     let context = context.as_ref().unwrap();
 
-    let (xs, ys): (IndexSet<_>, IndexSet<_>) = {
-        let (mut xs, mut ys) = (IndexSet::new(), IndexSet::new());
-        for arg in &context.args {
-            match arg {
-                AnchorArg::Variable((name, _)) if !xs.is_empty() => {
-                    return Err(SubproofError::BindUnexpectedVarArgument(name.clone()).into());
-                }
-                AnchorArg::Variable(var) => {
-                    ys.insert(pool.add(var.clone().into()));
-                }
-                AnchorArg::Assign(var, _) => {
-                    xs.insert(pool.add(var.clone().into()));
-                }
+    let mut mapping: IndexMap<_, _> = IndexMap::new();
+    for arg in &context.args {
+        match arg {
+            AnchorArg::Variable((name, _)) if !mapping.is_empty() => {
+                return Err(SubproofError::BindUnexpectedVarArgument(name.clone()).into());
+            }
+            AnchorArg::Variable(_) => (),
+            AnchorArg::Assign(var, value) => {
+                mapping.insert(pool.add(var.clone().into()), value.clone());
             }
         }
-        (xs, ys)
-    };
-
-    rassert!(
-        l_bindings.len() == r_bindings.len(),
-        SubproofError::BindDifferentNumberOfBindings(l_bindings.len(), r_bindings.len())
-    );
-
-    let (l_bindings, r_bindings): (IndexSet<_>, IndexSet<_>) = (
-        l_bindings.difference(&r_bindings).cloned().collect(),
-        r_bindings.difference(&r_bindings).cloned().collect(),
-    );
-
-    // `l_bindings` should be a subset of `xs` and `r_bindigns` should be a subset of `ys`
-    if let Some(x) = l_bindings.iter().find(|&x| !xs.contains(x)) {
-        let x = x.as_var().unwrap().to_owned();
-        return Err(SubproofError::BindingIsNotInContext(x).into());
     }
-    if let Some(y) = r_bindings.iter().find(|&y| !ys.contains(y)) {
+
+    // Each variable in `l_bindings` must be mapped to a different variable in `r_bindings`. The
+    // variables that are not in the context are mapped to themselves
+    let mapped: IndexSet<_> = l_bindings
+        .iter()
+        .map(|x| mapping.get(x).unwrap_or(x))
+        .collect();
+    if let Some(y) = r_bindings.iter().find(|&y| !mapped.contains(y)) {
         let y = y.as_var().unwrap().to_owned();
         return Err(SubproofError::BindingIsNotInContext(y).into());
     }
+    // In a `lambda` term, the order of the variables matters
+    if l_binder == Binder::Lambda && !r_bindings.iter().eq(mapped) {
+        return Err(EqualityError::ExpectedEqual(left.clone(), right.clone()).into());
+    }
     Ok(())
 }
 
@@ -147,6 +234,27 @@ pub fn r#let(
 
     assert_clause_len(conclusion, 1)?;
 
+    let (let_term, u_prime) = match_term_err!((= l u) = &conclusion[0])?;
+    let Term::Let(let_bindings, u) = let_term.as_ref() else {
+        return Err(CheckerError::TermOfWrongForm("(let ...)", let_term.clone()));
+    };
+
+    let let_vars: IndexSet<_> = let_bindings
+        .iter()
+        .map(|(x, t)| {
+            let sort = pool.sort(t);
+            pool.add((x.clone(), sort).into())
+        })
+        .collect();
+    assert_closes_context(
+        pool,
+        context,
+        &conclusion[0],
+        &let_vars,
+        &IndexSet::new(),
+        false,
+    )?;
+
     // Since we are closing a subproof, we only care about the mappings that were introduced in it
     let context = context.last().unwrap();
     let args = &context.as_ref().unwrap().args;
@@ -159,11 +267,6 @@ pub fn r#let(
         })
         .collect();
 
-    let (let_term, u_prime) = match_term_err!((= l u) = &conclusion[0])?;
-    let Term::Let(let_bindings, u) = let_term.as_ref() else {
-        return Err(CheckerError::TermOfWrongForm("(let ...)", let_term.clone()));
-    };
-
     // The u and u' in the conclusion must match the u and u' in the previous command in the
     // subproof
     let previous_term = get_premise_term(&previous_command)?;
@@ -293,6 +396,13 @@ pub fn onepoint(
         }
     );
 
+    let [l_vars, r_vars] = [l_bindings, r_bindings].map(|b| {
+        b.iter()
+            .map(|var| pool.add(var.clone().into()))
+            .collect::<IndexSet<_>>()
+    });
+    assert_closes_context(pool, context, &conclusion[0], &l_vars, &r_vars, true)?;
+
     let points = extract_points(quant, left);
 
     // Since a substitution may use a variable introduced in a previous substitution, we apply the
@@ -381,6 +491,19 @@ fn generic_skolemization_rule(
     assert_eq(previous_equality.0, phi)?;
     assert_eq(previous_equality.1, psi)?;
 
+    let vars: IndexSet<_> = bindings
+        .iter()
+        .map(|var| pool.add(var.clone().into()))
+        .collect();
+    assert_closes_context(
+        pool,
+        context,
+        &conclusion[0],
+        &vars,
+        &IndexSet::new(),
+        false,
+    )?;
+
     let mut current_phi = phi.clone();
     if context.len() >= 2 {
         current_phi = context.apply_previous(pool, &current_phi);
diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 6cf7c21..d9a5a2f 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -137,6 +137,26 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
         *context.is_holey = true;
     }
 
+    // The conclusion of a subproof is exported to the outer context, so if the anchor has arguments,
+    // the rule that closes the subproof must take them into account
+    if context.is_end_step
+        && !matches!(
+            step.rule.as_str(),
+            "bind" | "let" | "bind_let" | "onepoint" | "sko_ex" | "sko_forall" | "hole"
+        )
+    {
+        use crate::checker::error::{CheckerError, SubproofError};
+        let has_args = rule_args
+            .context
+            .last()
+            .is_some_and(|c| c.as_ref().is_some_and(|c| !c.args.is_empty()));
+        if has_args {
+            return Err(CheckerError::Subproof(
+                SubproofError::RuleDoesntCloseContext,
+            ));
+        }
+    }
+
     // Execute the rule with the provided arguments
     rule(rule_args)?;
 
-- 
2.43.0


From 1f0ecdab7baa6b8a4221cfbf73243e6b4646c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 33/81] fix: onepoint accepts circular points and points of
 bound variables

---
 carcara/src/checker/rules/subproof.rs | 83 +++++++++++++++++++++------
 1 file changed, 67 insertions(+), 16 deletions(-)

diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index f82969a..e340692 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -308,8 +308,13 @@ pub fn r#let(
     Ok(())
 }
 
-fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)> {
+fn extract_points(
+    pool: &mut dyn TermPool,
+    quant: Binder,
+    term: &Rc<Term>,
+) -> HashSet<(String, Rc<Term>)> {
     fn find_points(
+        pool: &mut dyn TermPool,
         acc: &mut HashSet<(String, Rc<Term>)>,
         seen: &mut HashSet<(Rc<Term>, bool)>,
         polarity: bool,
@@ -322,10 +327,29 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
         seen.insert(key);
 
         if let Some(inner) = term.remove_negation() {
-            return find_points(acc, seen, !polarity, inner);
+            return find_points(pool, acc, seen, !polarity, inner);
         }
-        if let Some((_, _, inner)) = term.as_quant() {
-            return find_points(acc, seen, polarity, inner);
+        if let Some((_, bindings, inner)) = term.as_quant() {
+            let mut inner_points = HashSet::new();
+            find_points(
+                pool,
+                &mut inner_points,
+                &mut HashSet::new(),
+                polarity,
+                inner,
+            );
+            // A point that involves the variables bound by this quantifier is not a point of the
+            // outer quantifier
+            let bound: Vec<_> = bindings
+                .iter()
+                .map(|var| pool.add(var.clone().into()))
+                .collect();
+            acc.extend(inner_points.into_iter().filter(|(x, t)| {
+                let free_vars = pool.free_vars(t);
+                bindings.iter().all(|(var, _)| var != x)
+                    && !bound.iter().any(|v| free_vars.contains(v))
+            }));
+            return;
         }
         match polarity {
             true => {
@@ -338,17 +362,17 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
                     }
                 } else if let Some(args) = match_term!((and ...) = term) {
                     for a in args {
-                        find_points(acc, seen, true, a);
+                        find_points(pool, acc, seen, true, a);
                     }
                 }
             }
             false => {
                 if let Some((p, q)) = match_term!((=> p q) = term) {
-                    find_points(acc, seen, true, p);
-                    find_points(acc, seen, false, q);
+                    find_points(pool, acc, seen, true, p);
+                    find_points(pool, acc, seen, false, q);
                 } else if let Some(args) = match_term!((or ...) = term) {
                     for a in args {
-                        find_points(acc, seen, false, a);
+                        find_points(pool, acc, seen, false, a);
                     }
                 }
             }
@@ -357,7 +381,7 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
 
     let mut result = HashSet::new();
     let mut seen = HashSet::new();
-    find_points(&mut result, &mut seen, quant == Binder::Exists, term);
+    find_points(pool, &mut result, &mut seen, quant == Binder::Exists, term);
     result
 }
 
@@ -403,22 +427,49 @@ pub fn onepoint(
     });
     assert_closes_context(pool, context, &conclusion[0], &l_vars, &r_vars, true)?;
 
-    let points = extract_points(quant, left);
+    let points = extract_points(pool, quant, left);
 
     // Since a substitution may use a variable introduced in a previous substitution, we apply the
     // substitution to the points in order to replace these variables by their value.
-    let points: HashSet<_> = points
+    let points: Vec<_> = points
         .into_iter()
-        .map(|(x, t)| (x, context.apply(pool, &t)))
+        .map(|(x, t)| {
+            let free_vars = pool.free_vars(&t);
+            let value = context.apply(pool, &t);
+            (x, value, free_vars)
+        })
         .collect();
 
     let context = context.last().unwrap();
     let context = context.as_ref().unwrap();
-    let mut mappings = context.args.iter().filter_map(AnchorArg::as_assign);
+    let mut mappings: Vec<_> = context
+        .args
+        .iter()
+        .filter_map(AnchorArg::as_assign)
+        .collect();
 
-    // For each substitution (:= x t) in the context, the equality (= x t) must appear in phi
-    if let Some((k, v)) = mappings.find(|&(k, v)| !points.contains(&(k.clone(), v.clone()))) {
-        return Err(SubproofError::NoPointForSubstitution(k.clone(), v.clone()).into());
+    // For each substitution (:= x t) in the context, the equality (= x t) must appear in phi. If a
+    // point uses the variables of other substitutions, those must already be justified by other
+    // points
+    while !mappings.is_empty() {
+        let pending: Vec<_> = mappings
+            .iter()
+            .map(|(k, v)| pool.add(Term::new_var(*k, pool.sort(v))))
+            .collect();
+        let justified = mappings.iter().position(|&(k, v)| {
+            points.iter().any(|(x, value, free_vars)| {
+                x == k && value == v && !pending.iter().any(|p| free_vars.contains(p))
+            })
+        });
+        match justified {
+            Some(i) => {
+                mappings.remove(i);
+            }
+            None => {
+                let (k, v) = mappings[0];
+                return Err(SubproofError::NoPointForSubstitution(k.to_owned(), v.clone()).into());
+            }
+        }
     }
 
     // Here we check that the right variables were eliminated. Using the notation in the
-- 
2.43.0


From 5a58236181f9d12645a3bf13a62f2e2c2417f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 34/81] fix: numeric constants are compared with negations and
 fractions by their value

Comparing a constant with a division panicked if the divisor was zero, and judged equal
(- 1.5) and -3, (/ 1.0 2.0 2.0) and 0.5, or (- 2) / 3 and its reciprocal reading.
---
 carcara/src/ast/polyeq.rs | 78 ++++++---------------------------------
 1 file changed, 11 insertions(+), 67 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 4655f3b..5f92618 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -7,8 +7,6 @@
 //! - `alpha_equiv` compares terms by alpha-equivalence, meaning it implements equality of terms
 //!   modulo renaming of bound variables.
 
-use rug::Rational;
-
 use super::{
     AnchorArg, BindingList, Constant, NaryCase, Operator, ProofCommand, ProofStep, Rc, Sort,
     Subproof, Term,
@@ -558,71 +556,17 @@ impl PolyeqComparable for Term {
             (Term::Let(binds_a, a), Term::Let(binds_b, b)) => {
                 comp.compare_binder(binds_a, binds_b, a, b)
             }
-            (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args)) => {
-                // if a is a rational and b a division literal, check
-                // if they are the same
-                match (args[0].as_ref(), args[1].as_ref()) {
-                    (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r1.is_integer() && r2.is_integer() =>
-                    {
-                        Rational::from((r1.numer(), r2.numer())) == r.clone()
-                    }
-                    _ => false,
-                }
-            }
-            (Term::Op(Operator::RealDiv, args), Term::Const(Constant::Real(r))) => {
-                // if a is a rational and b a division literal, check
-                // if they are the same
-                match (args[0].as_ref(), args[1].as_ref()) {
-                    (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r.is_positive() && r1.is_integer() && r2.is_integer() =>
-                    {
-                        Rational::from((r1.numer(), r2.numer())) == r.clone()
-                    }
-                    (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(r2)))
-                    | (Term::Const(Constant::Integer(r2)), Term::Op(Operator::Sub, args))
-                        if r.is_negative() && args.len() == 1 =>
-                    {
-                        if let Term::Const(Constant::Integer(r1)) = args[0].as_ref() {
-                            Rational::from((r1, r2)) == r.clone().abs()
-                        } else {
-                            false
-                        }
-                    }
-                    _ => false,
-                }
-            }
-            (Term::Const(Constant::Integer(i1)), Term::Op(Operator::Sub, args))
-            | (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(i1)))
-                if i1.is_negative() && args.len() == 1 =>
-            {
-                if let Term::Const(Constant::Integer(i2)) = args[0].as_ref() {
-                    i1.clone().abs() == i2.clone()
-                } else if let Term::Const(Constant::Real(r2)) = args[0].as_ref() {
-                    i1.clone().abs() == r2.numer().clone()
-                } else {
-                    false
-                }
-            }
-            (Term::Op(Operator::Sub, args), Term::Const(Constant::Real(r)))
-            | (Term::Const(Constant::Real(r)), Term::Op(Operator::Sub, args))
-                if r.is_negative() && args.len() == 1 =>
-            {
-                match args[0].as_ref() {
-                    Term::Op(Operator::RealDiv, sub_args) => {
-                        match (sub_args[0].as_ref(), sub_args[1].as_ref()) {
-                            (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                                if r1.is_integer() && r2.is_integer() =>
-                            {
-                                Rational::from((r1.numer(), r2.numer())) == r.clone().abs()
-                            }
-                            _ => false,
-                        }
-                    }
-                    Term::Const(Constant::Real(r1)) => r1.clone() == r.clone().abs(),
-                    _ => false,
-                }
-            }
+            // A numeric constant and the same number written as a negation or as a fraction
+            (c @ Term::Const(Constant::Integer(_)), t @ Term::Op(Operator::Sub, _))
+            | (t @ Term::Op(Operator::Sub, _), c @ Term::Const(Constant::Integer(_)))
+            | (
+                c @ Term::Const(Constant::Real(_)),
+                t @ Term::Op(Operator::Sub | Operator::RealDiv, _),
+            )
+            | (
+                t @ Term::Op(Operator::Sub | Operator::RealDiv, _),
+                c @ Term::Const(Constant::Real(_)),
+            ) => t.as_fraction().is_some_and(|t| Some(t) == c.as_number()),
             _ => {
                 if comp.is_mod_string_concat {
                     return match (a, b) {
-- 
2.43.0


From 2655ee531ebbfa8f5cc79da9a29a08133fcdd9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 35/81] fix: term comparison tells unary minus from n-ary
 minus, and string concatenation from other operators

Modulo n-ary expansion, (- a) and a were judged equal; modulo string concatenation, any two
operators with the same arguments were, and non-ASCII constants panicked.
---
 carcara/src/ast/polyeq.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 5f92618..b6e7b80 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -242,7 +242,7 @@ impl Polyeq {
         args_b: &[Rc<Term>],
     ) -> bool {
         // Modulo string concatenation
-        if self.is_mod_string_concat {
+        if self.is_mod_string_concat && op_a == Operator::StrConcat && op_b == Operator::StrConcat {
             let concat_args_a: Vec<Concat> = to_concat(args_a);
             let concat_args_b: Vec<Concat> = to_concat(args_b);
             return self.compare_strings(concat_args_a, concat_args_b);
@@ -312,7 +312,8 @@ impl Polyeq {
                 return None;
             };
             let (term_op, args) = term.as_op()?;
-            if term_op == op {
+            // An unary `-` is a negation
+            if term_op == op && !(op == Operator::Sub && args.len() == 1) {
                 Some(args)
             } else {
                 None
@@ -345,15 +346,14 @@ impl Polyeq {
             (None | Some(_), None) | (None, Some(_)) => (a, b),
             (Some(a_head), Some(b_head)) => match (a_head, b_head) {
                 (Concat::Constant(a_constant), Concat::Constant(b_constant)) => {
-                    let prefix_length = std::cmp::min(a_constant.len(), b_constant.len());
-                    for i in 0..prefix_length {
-                        if a_constant.chars().nth(i).unwrap() != b_constant.chars().nth(i).unwrap()
-                        {
+                    let (a_const_rem, b_const_rem) =
+                        if let Some(rem) = a_constant.strip_prefix(b_constant.as_str()) {
+                            (rem, "")
+                        } else if let Some(rem) = b_constant.strip_prefix(a_constant.as_str()) {
+                            ("", rem)
+                        } else {
                             return (a, b);
-                        }
-                    }
-                    let a_const_rem = &a_constant[prefix_length..];
-                    let b_const_rem = &b_constant[prefix_length..];
+                        };
                     let mut new_a = a[1..].to_vec();
                     let mut new_b = b[1..].to_vec();
                     if !a_const_rem.is_empty() {
@@ -540,6 +540,8 @@ impl PolyeqComparable for Term {
                 if comp.is_mod_nary
                     && args.len() == 1
                     && op.nary_case() == Some(NaryCase::LeftAssoc)
+                    // An unary `-` is a negation
+                    && *op != Operator::Sub
                     // We have to check with `==` first because we are calling into `comp.eq` with
                     // `&Term`s directly (instead of `Rc<Term>`s), so the `==` check is skipped
                     && (args[0].as_ref() == other || comp.eq(args[0].as_ref(), other)) =>
-- 
2.43.0


From 29c038e74e503645e636a6586570a821e2c72632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 36/81] fix: terms built by different threads are shared, and
 have the sort of the main pool

---
 carcara/src/ast/pool/advanced.rs | 46 ++++++++++--------------------
 carcara/src/ast/pool/mod.rs      | 49 +++++++++++++++++++++++++++-----
 2 files changed, 57 insertions(+), 38 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 086b12b..38b4252 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -16,16 +16,13 @@ impl Default for ContextPool {
 
 impl ContextPool {
     pub fn new() -> Self {
-        Self {
-            global_pool: Arc::new(PrimitivePool::new()),
-            inner: Arc::new(RwLock::new(PrimitivePool::new())),
-        }
+        Self::from_global(&Arc::new(PrimitivePool::new()))
     }
 
     pub fn from_global(global_pool: &Arc<PrimitivePool>) -> Self {
         Self {
             global_pool: global_pool.clone(),
-            inner: Arc::new(RwLock::new(PrimitivePool::new())),
+            inner: Arc::new(RwLock::new(PrimitivePool::with_base(global_pool))),
         }
     }
 
@@ -40,22 +37,24 @@ impl ContextPool {
 impl TermPool for ContextPool {
     fn add(&mut self, term: Term) -> Rc<Term> {
         // If the global pool has the term
-        if let Some(entry) = self.global_pool.storage.get(&term) {
+        if let Some(entry) = self.global_pool.get(&term) {
             return entry.clone();
         }
-        let mut ctx_guard = self.inner.write().unwrap();
-        let term = ctx_guard.storage.add(term);
-        ctx_guard.compute_sort(&term);
-        term
+        // If another thread already added the term
+        if let Some(entry) = self.inner.read().unwrap().get(&term) {
+            return entry.clone();
+        }
+        self.inner.write().unwrap().add(term)
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-        if let Some(sort) = self.global_pool.sorts_cache.get(term) {
+        if let Some(sort) = self.global_pool.get_sort(term) {
             sort.clone()
         }
         // A sort inserted by context
         else {
-            self.inner.read().unwrap().sorts_cache[term].clone()
+            let cached = self.inner.read().unwrap().get_sort(term).cloned();
+            cached.unwrap_or_else(|| self.inner.write().unwrap().compute_sort(term))
         }
     }
 
@@ -100,28 +99,13 @@ impl LocalPool {
 
 impl TermPool for LocalPool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        // If there is a constant pool and has the term
-        if let Some(entry) = self.ctx_pool.global_pool.storage.get(&term) {
-            entry.clone()
-        }
-        // If this term was inserted by the context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(&term) {
-            entry.clone()
-        } else {
-            self.inner.add(term)
-        }
+        // Since the contexts are shared between the threads, a term built by one thread may end up
+        // being used by another, so new terms must be shared between them as well
+        self.ctx_pool.add(term)
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-        if let Some(sort) = self.ctx_pool.global_pool.sorts_cache.get(term) {
-            sort.clone()
-        }
-        // A sort inserted by context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(term) {
-            entry.clone()
-        } else {
-            self.inner.sorts_cache[term].clone()
-        }
+        self.ctx_pool.sort(term)
     }
 
     fn free_vars(&mut self, term: &Rc<Term>) -> IndexSet<Rc<Term>> {
diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 8de5c27..ed4591f 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -6,6 +6,7 @@ mod storage;
 use super::{Binder, Operator, Rc, Sort, Substitution, Term};
 use crate::ast::{Constant, ParamOperator};
 use indexmap::{IndexMap, IndexSet};
+use std::sync::Arc;
 use storage::Storage;
 
 pub trait TermPool {
@@ -57,6 +58,8 @@ pub trait TermPool {
 /// [`PrimitivePool::sort`]) or its free variables (see [`PrimitivePool::free_vars`]).
 #[derive(Debug, Default)]
 pub struct PrimitivePool {
+    /// The pool that this pool extends, if any. Terms in the base pool are never duplicated.
+    base: Option<Arc<PrimitivePool>>,
     pub(crate) storage: Storage,
     pub(crate) free_vars_cache: IndexMap<Rc<Term>, IndexSet<Rc<Term>>>,
     pub(crate) sorts_cache: IndexMap<Rc<Term>, Rc<Term>>,
@@ -69,9 +72,41 @@ impl PrimitivePool {
         Self::default()
     }
 
+    /// Constructs a new `TermPool` that extends `base`, sharing all of its terms.
+    fn with_base(base: &Arc<PrimitivePool>) -> Self {
+        Self {
+            base: Some(base.clone()),
+            ..Self::default()
+        }
+    }
+
+    /// Returns the allocation of the given term in this pool or in its base, if there is one.
+    fn get(&self, term: &Term) -> Option<&Rc<Term>> {
+        match self.base.as_ref().and_then(|base| base.get(term)) {
+            Some(t) => Some(t),
+            None => self.storage.get(term),
+        }
+    }
+
+    /// Returns the sort of the given term, if the term is in this pool or in its base.
+    fn get_sort(&self, term: &Rc<Term>) -> Option<&Rc<Term>> {
+        match self.base.as_ref().and_then(|base| base.get_sort(term)) {
+            Some(sort) => Some(sort),
+            None => self.sorts_cache.get(term),
+        }
+    }
+
+    /// Adds a term to the storage, unless it is already in this pool or in its base.
+    fn add_to_storage(&mut self, term: Term) -> Rc<Term> {
+        match self.get(&term) {
+            Some(t) => t.clone(),
+            None => self.storage.add(term),
+        }
+    }
+
     /// Computes the sort of a term and adds it to the sort cache.
     fn compute_sort(&mut self, term: &Rc<Term>) -> Rc<Term> {
-        if let Some(sort) = self.sorts_cache.get(term) {
+        if let Some(sort) = self.get_sort(term) {
             return sort.clone();
         }
 
@@ -350,7 +385,7 @@ impl PrimitivePool {
                 sort
             }
         };
-        let sort = self.storage.add(Term::Sort(result));
+        let sort = self.add_to_storage(Term::Sort(result));
         self.sorts_cache.insert(term.clone(), sort);
         self.sorts_cache[term].clone()
     }
@@ -362,7 +397,7 @@ impl PrimitivePool {
     ) -> Rc<Term> {
         for p in prior_pools {
             // If this prior pool has the term
-            if let Some(entry) = p.storage.get(&term) {
+            if let Some(entry) = p.get(&term) {
                 return entry.clone();
             }
         }
@@ -375,11 +410,11 @@ impl PrimitivePool {
         prior_pools: [&PrimitivePool; N],
     ) -> Rc<Term> {
         for p in prior_pools {
-            if let Some(sort) = p.sorts_cache.get(term) {
+            if let Some(sort) = p.get_sort(term) {
                 return sort.clone();
             }
         }
-        self.sorts_cache[term].clone()
+        self.sort(term)
     }
 
     // TODO: Try to workaround the lifetime specifiers and return a ref
@@ -455,13 +490,13 @@ impl PrimitivePool {
 
 impl TermPool for PrimitivePool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        let term = self.storage.add(term);
+        let term = self.add_to_storage(term);
         self.compute_sort(&term);
         term
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-        self.sorts_cache[term].clone()
+        self.get_sort(term).unwrap().clone()
     }
 
     fn free_vars(&mut self, term: &Rc<Term>) -> IndexSet<Rc<Term>> {
-- 
2.43.0


From 2aaf76f278a9347eea24f7d6f052a5b9c4f4f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 37/81] fix: constant evaluation follows SMT-LIB on signed,
 zero and oversized operands

---
 carcara/src/ast/evaluate.rs | 119 ++++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 40 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 8dc3c25..d01449e 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,7 +1,14 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
-use rug::{Integer, Rational};
+use rug::{
+    ops::{DivRounding, RemRounding},
+    Integer, Rational,
+};
 use std::collections::{HashMap, HashSet};
 
+/// The maximum number of bits of the values that are computed during evaluation. Operations whose
+/// result would need more bits than this are not evaluated.
+const MAX_WIDTH: usize = 1 << 24;
+
 /// A representation of the value of an SMT-LIB/Alethe term. This is constructed by evaluating a
 /// term (see [`Rc::<Term>::evaluate`]).
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -76,14 +83,22 @@ impl Value {
     pub fn as_signed_bitvec(&self) -> Option<(Integer, usize)> {
         let (val, w) = self.as_bitvec()?;
         let val = if val.get_bit((w - 1) as u32) {
-            let m = Integer::from(1) << w;
-            m.clone() - val
+            val.clone() - (Integer::from(1) << w)
         } else {
             val.clone()
         };
         Some((val, w))
     }
 
+    /// Returns `true` if the value is the integer or real number zero.
+    fn is_zero(&self) -> bool {
+        match self {
+            Value::Integer(i) => i.is_zero(),
+            Value::Real(r) => r.is_zero(),
+            _ => false,
+        }
+    }
+
     /// Constructs a constant term that corresponds to this value.
     pub fn into_term(self) -> Term {
         match self {
@@ -278,7 +293,20 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         },
         Operator::Sub => arith_op!(-, args),
         Operator::Mult => arith_op!(*, args),
-        Operator::IntDiv => arith_op!(/, args),
+        // The result of a division by zero is unspecified, so it cannot be evaluated
+        Operator::IntDiv | Operator::RealDiv | Operator::Mod
+            if args[1..].iter().any(Value::is_zero) =>
+        {
+            return None;
+        }
+        Operator::IntDiv => {
+            let first = args[0].as_int()?;
+            Value::Integer(
+                args[1..]
+                    .iter()
+                    .try_fold(first, |acc, arg| Some(acc.div_euc(arg.as_int()?)))?,
+            )
+        }
         Operator::RealDiv => arith_op!(/, args, "real"),
         Operator::Mod => Value::Integer(args[0].as_int()? % args[1].as_int()?),
         Operator::Abs => match &args[0] {
@@ -291,7 +319,7 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if v < 0 {
                 return Some(Value::Integer(Integer::from(0)));
             }
-            let v = v.to_usize()?;
+            let v = v.to_usize().filter(|v| *v <= MAX_WIDTH)?;
             Value::Integer(Integer::from(1) << v)
         }
         Operator::Log2 => {
@@ -401,34 +429,34 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if b.is_zero() {
                 return None;
             }
-            let signum: Integer = if op == Operator::BvSRem { &a } else { &b }
-                .signum_ref()
-                .into();
-            let value = a.abs() % b.abs();
-            Value::new_bitvec(value * signum, w)
+            // The sign of `bvsrem` follows the dividend, and the sign of `bvsmod` the divisor
+            let value = if op == Operator::BvSRem {
+                a.rem_trunc(b)
+            } else {
+                a.rem_floor(b)
+            };
+            Value::new_bitvec(value, w)
         }
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() << b.to_usize()?, w)
+            match b.to_usize().filter(|b| *b < w) {
+                Some(b) => Value::new_bitvec(a.clone() << b, w),
+                None => Value::new_bitvec(Integer::ZERO, w),
+            }
         }
         Operator::BvLShr => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() >> b.to_usize()?, w)
+            match b.to_usize().filter(|b| *b < w) {
+                Some(b) => Value::new_bitvec(a.clone() >> b, w),
+                None => Value::new_bitvec(Integer::ZERO, w),
+            }
         }
         Operator::BvAShr => {
-            let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            let b = b.to_usize().unwrap();
-            let mut result = a.clone() >> b;
-            if a.get_bit((w - 1) as u32) {
-                // If the leading bit is 1, we have to fill the new bits with 1s. The mask is b 1s
-                // followed by w - b 0s:
-                // |----w----|
-                // |-b-|
-                // 11111000000
-                let mask = ((Integer::from(1) << b) - 1) << (w - b);
-                result |= mask;
-            }
-            Value::new_bitvec(result, w)
+            let ((a, w), (b, _)) = (args[0].as_signed_bitvec()?, args[1].as_bitvec()?);
+            // Shifting by the width or more gives the same result as shifting by the width minus
+            // one, in which every bit is a copy of the sign bit
+            let b = b.to_usize().map_or(w - 1, |b| b.min(w - 1));
+            Value::new_bitvec(a >> b, w)
         }
         Operator::BvULt => bitvec_comparison_op!(<, args),
         Operator::BvULe => bitvec_comparison_op!(<=, args),
@@ -467,7 +495,7 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         Operator::BvSize => Value::Integer(args[0].as_bitvec()?.1.into()),
         Operator::BvConst => {
             let value = args[0].as_int()?;
-            let width = args[1].as_int()?.to_usize().unwrap();
+            let width = as_index(&args[1]).filter(|w| *w > 0)?;
             Value::new_bitvec(value, width)
         }
         Operator::BvBbTerm => {
@@ -502,36 +530,42 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
 
     Some(match op {
         ParamOperator::BvExtract => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
-            let j = op_args[1].as_int()?.to_usize().unwrap();
-            let (bits, _) = args[0].as_bitvec()?;
-            let bits = bits.clone().keep_bits(i as u32) >> j;
-            Value::new_bitvec(bits, i - j + 1)
+            let (i, j) = (as_index(&op_args[0])?, as_index(&op_args[1])?);
+            let (bits, w) = args[0].as_bitvec()?;
+            if j > i || i >= w {
+                return None;
+            }
+            Value::new_bitvec(bits.clone() >> j, i - j + 1)
         }
         ParamOperator::ZeroExtend => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_index(&op_args[0])?;
             let (value, w) = args[0].as_bitvec()?;
             Value::new_bitvec(value.clone(), w + i)
         }
         ParamOperator::SignExtend => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_index(&op_args[0])?;
             let (value, w) = args[0].as_signed_bitvec()?;
             Value::new_bitvec(value, w + i)
         }
         ParamOperator::RotateLeft => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = op_args[0].as_int()?;
             let (value, w) = args[0].as_bitvec()?;
             // A left rotation by i bits is just a right rotation by w - i bits
+            let i = i.rem_euc(Integer::from(w)).to_usize()?;
             Value::new_bitvec(rotate_right(value, w, w - i), w)
         }
         ParamOperator::RotateRight => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = op_args[0].as_int()?;
             let (value, w) = args[0].as_bitvec()?;
+            let i = i.rem_euc(Integer::from(w)).to_usize()?;
             Value::new_bitvec(rotate_right(value, w, i), w)
         }
         ParamOperator::Repeat => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_index(&op_args[0])?;
             let (value, w) = args[0].as_bitvec()?;
+            if w * i > MAX_WIDTH {
+                return None;
+            }
             let mut result = Integer::ZERO;
             for _ in 0..i {
                 result <<= w;
@@ -540,22 +574,22 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             Value::new_bitvec(result, w * i)
         }
         ParamOperator::IntToBv => {
-            let w = op_args[0].as_int()?.to_usize().unwrap();
+            let w = as_index(&op_args[0])?;
             let value = args[0].as_int()?;
             Value::new_bitvec(value, w)
         }
         ParamOperator::BvConst => {
             let value = op_args[0].as_int()?;
-            let w = op_args[1].as_int()?.to_usize().unwrap();
+            let w = as_index(&op_args[1])?;
             Value::new_bitvec(value, w)
         }
         ParamOperator::BvBitOf => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_index(&op_args[0])?;
             let (value, _) = args[0].as_bitvec()?;
             Value::Bool(value.get_bit(i as u32))
         }
         ParamOperator::BvIntOf => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_index(&op_args[0])?;
             let (value, _) = args[0].as_bitvec()?;
             let bit = Integer::from(value.get_bit(i as u32) as usize);
             Value::Integer(bit)
@@ -566,6 +600,11 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
     })
 }
 
+/// Returns the value of an index or width, if it is small enough to be used in the evaluation.
+fn as_index(value: &Value) -> Option<usize> {
+    value.as_int()?.to_usize().filter(|i| *i <= MAX_WIDTH)
+}
+
 /// Rotates a `w`-sized bitvector `r` bits to the right
 fn rotate_right(value: &Integer, w: usize, r: usize) -> Integer {
     let r = r % w;
-- 
2.43.0


From 69edfc4b23a5f94f836def7a69380c02e9aa9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 38/81] fix: the parser rejects invalid bit-vector widths and
 indices, and reduces (_ bvN w) modulo 2^w

---
 carcara/src/ast/pool/mod.rs |  8 +++---
 carcara/src/parser/error.rs |  9 +++++++
 carcara/src/parser/mod.rs   | 52 +++++++++++++++++++++++++++----------
 3 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index ed4591f..2fa24ad 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -186,11 +186,9 @@ impl PrimitivePool {
                 }
                 Operator::BvComp => Sort::BitVec(1),
                 Operator::BvBbTerm | Operator::BvPBbTerm => Sort::BitVec(args.len()),
-                Operator::BvConst => match &*args[1] {
-                    Term::Const(Constant::Integer(bvsize)) => {
-                        Sort::BitVec(bvsize.to_usize().unwrap())
-                    }
-                    _ => Sort::ParamSort(
+                Operator::BvConst => match args[1].as_integer().and_then(|i| i.to_usize()) {
+                    Some(bvsize) => Sort::BitVec(bvsize),
+                    None => Sort::ParamSort(
                         vec![args[1].clone()],
                         self.add(Term::Sort(Sort::Var("BitVec".to_owned()))),
                     ),
diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 1fd03ac..4be8625 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -183,6 +183,15 @@ where
     Ok(())
 }
 
+/// Converts an integer into the width of a bitvector. Returns an error if it is not a valid width,
+/// or if it is too large.
+pub fn to_bv_width(width: Integer) -> Result<usize, ParserError> {
+    width
+        .to_u32()
+        .map(|w| w as usize)
+        .ok_or(ParserError::TooLargeBitvector)
+}
+
 /// An error in sort checking.
 #[derive(Debug, Error)]
 pub struct SortError {
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6c01a0a..1c2d4e6 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -23,7 +23,7 @@ use indexmap::{IndexMap, IndexSet};
 use rug::{Integer, Rational};
 use std::{io::BufRead, str::FromStr};
 
-use self::error::assert_indexed_op_args_value;
+use self::error::{assert_indexed_op_args_value, to_bv_width};
 
 #[derive(Debug, Clone, Copy, Default)]
 pub struct Config {
@@ -312,8 +312,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     SortError::assert_all_eq(&sorts)?;
                 }
 
-                if let Some(r) = self.interpret_div_as_real_lit(&args[0], &args[1]) {
-                    return Ok(r);
+                if let [a, b] = args.as_slice() {
+                    if let Some(r) = self.interpret_div_as_real_lit(a, b) {
+                        return Ok(r);
+                    }
                 }
             }
             Operator::Mod => {
@@ -463,6 +465,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 assert_num_args(&args, 2)?;
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
                 SortError::assert_eq(&Sort::Int, sorts[1])?;
+                if let Some(width) = args[1].as_integer() {
+                    assert_indexed_op_args_value(&args[1..], 1..)?;
+                    to_bv_width(width)?;
+                }
             }
             Operator::BvConcat => {
                 assert_num_args(&args, 2..)?;
@@ -474,8 +480,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
             }
             Operator::Cl => {}
             Operator::Delete => {
-                SortError::assert_eq(&Sort::Bool, sorts[0])?;
                 assert_num_args(&args, 1)?;
+                SortError::assert_eq(&Sort::Bool, sorts[0])?;
             }
             Operator::BvAdd
             | Operator::BvMul
@@ -1504,7 +1510,12 @@ impl<'a, R: BufRead> Parser<'a, R> {
         let op_symbol = self.expect_symbol()?;
 
         if let Some(value) = op_symbol.strip_prefix("bv") {
-            let parsed_value = value.parse::<Integer>().unwrap();
+            let parsed_value = value.parse::<Integer>().map_err(|_| {
+                Error::Parser(
+                    ParserError::InvalidIndexedOp(op_symbol.clone()),
+                    self.current_position,
+                )
+            })?;
             let args = self.parse_sequence(Self::parse_term, true)?;
             let mut constant_args = Vec::new();
             for arg in args {
@@ -1570,10 +1581,11 @@ impl<'a, R: BufRead> Parser<'a, R> {
             ParamOperator::BvConst => {
                 assert_num_args(&op_args, 2)?;
                 assert_num_args(&args, 0)?;
-                let value = op_args[0].as_integer().unwrap();
-                let width = op_args[1].as_integer().unwrap().to_usize().unwrap();
                 assert_indexed_op_args_value(&[op_args[0].clone()], 0..)?;
                 assert_indexed_op_args_value(&[op_args[1].clone()], 1..)?;
+                let width = to_bv_width(op_args[1].as_integer().unwrap())?;
+                // The value is taken modulo 2^width
+                let value = op_args[0].as_integer().unwrap().keep_bits(width as u32);
                 return Ok(self.pool.add(Term::Const(Constant::BitVec(value, width))));
             }
             ParamOperator::BvExtract => {
@@ -1598,8 +1610,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     }
                 }
                 assert_indexed_op_args_value(&op_args, 0..)?;
-                let i = op_args[0].as_integer().unwrap().to_usize().unwrap();
-                let j = op_args[1].as_integer().unwrap().to_usize().unwrap();
+                let i = to_bv_width(op_args[0].as_integer().unwrap())?;
+                let j = to_bv_width(op_args[1].as_integer().unwrap())?;
                 let Sort::BitVec(m) = sorts[0].clone() else {
                     unreachable!()
                 };
@@ -1617,6 +1629,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
+                assert_indexed_op_args_value(&op_args, 1..)?;
+                to_bv_width(op_args[0].as_integer().unwrap())?;
             }
             ParamOperator::BvBitOf
             | ParamOperator::BvIntOf
@@ -1632,10 +1646,21 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 } else {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
-                if !matches!(sorts[0], Sort::BitVec(_)) {
+                let Sort::BitVec(m) = sorts[0] else {
                     return Err(ParserError::ExpectedBvSort(sorts[0].clone()));
+                };
+                let index = op_args[0].as_integer().unwrap();
+                match op {
+                    ParamOperator::Repeat => {
+                        assert_indexed_op_args_value(&op_args, 1..)?;
+                        to_bv_width(index * *m)?;
+                    }
+                    ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
+                        assert_indexed_op_args_value(&op_args, 0..)?;
+                        to_bv_width(index + *m)?;
+                    }
+                    _ => assert_indexed_op_args_value(&op_args, 0..)?,
                 }
-                assert_indexed_op_args_value(&op_args, 0..)?;
             }
             ParamOperator::RePower => {
                 assert_num_args(&op_args, 1)?;
@@ -1899,9 +1924,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::WrongNumberOfArgs(1.into(), args.len()));
                 }
                 if let Some(width) = args[0].as_integer() {
-                    Ok(self
-                        .pool
-                        .add(Term::Sort(Sort::BitVec(width.to_usize().unwrap()))))
+                    assert_indexed_op_args_value(&args, 1..)?;
+                    Ok(self.pool.add(Term::Sort(Sort::BitVec(to_bv_width(width)?))))
                 } else {
                     Err(ParserError::ExpectedIntegerConstant(args[0].clone()))
                 }
-- 
2.43.0


From bbee886cdf0bb7d5f747755eb05083ee68704b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 39/81] fix: combining online metrics uses exact weights for
 the variance

---
 carcara/src/benchmarking/metrics.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/carcara/src/benchmarking/metrics.rs b/carcara/src/benchmarking/metrics.rs
index 39fd230..172ca60 100644
--- a/carcara/src/benchmarking/metrics.rs
+++ b/carcara/src/benchmarking/metrics.rs
@@ -216,10 +216,7 @@ impl<K: Clone, T: MetricsUnit> Metrics<K, T> for OnlineMetrics<K, T> {
     }
 
     /// Combines two metrics into one. If one the metrics has only one data point, this is
-    /// equivalent to `Metrics::add_sample`. This is generally numerically stable if the metrics
-    /// have many data points, or exactly one. If one of the metrics is small, the error in the
-    /// variance introduced by using this method (as opposed to using `Metrics::add_sample` on each
-    /// data point) can be as high as 30%.
+    /// equivalent to `Metrics::add_sample`.
     fn combine(self, other: Self) -> Self {
         match (self.count, other.count) {
             (0, _) => return other,
@@ -242,7 +239,7 @@ impl<K: Clone, T: MetricsUnit> Metrics<K, T> for OnlineMetrics<K, T> {
         let delta = other.mean.absolute_diff(self.mean).as_f64();
         let sum_of_squared_distances = self.sum_of_squared_distances
             + other.sum_of_squared_distances
-            + delta * delta * (self.count * other.count / count) as f64;
+            + delta * delta * (self.count as f64 * other.count as f64 / count as f64);
 
         let max_min = match (self.max_min, other.max_min) {
             (a, None) => a,
-- 
2.43.0


From ce9f18897bf93b2199409577d9e9dac4abb3914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 40/81] fix: combined CSV results are holey if any of the
 combined results is

---
 carcara/src/benchmarking/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carcara/src/benchmarking/mod.rs b/carcara/src/benchmarking/mod.rs
index 9f5da1b..961f2d2 100644
--- a/carcara/src/benchmarking/mod.rs
+++ b/carcara/src/benchmarking/mod.rs
@@ -519,6 +519,7 @@ impl CollectResults for CsvBenchmarkResults {
         a.runs.extend(b.runs);
         a.steps.extend(b.steps);
         a.num_errors += b.num_errors;
+        a.is_holey |= b.is_holey;
         a
     }
 }
-- 
2.43.0


From 42e04f31999e3b4524756f009abf0ea6d0648ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 41/81] fix: parallel checking records step times under the
 name of the file

---
 carcara/src/checker/parallel/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 1a8325d..74ae064 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -158,7 +158,7 @@ impl<'c> ParallelProofChecker<'c> {
                 .enumerate()
                 .map(|(i, schedule)| {
                     let mut local_stats = CheckerStatistics {
-                        file_name: "",
+                        file_name: stats.file_name,
                         polyeq_time: Duration::ZERO,
                         assume_time: Duration::ZERO,
                         assume_core_time: Duration::ZERO,
-- 
2.43.0


From 9689c00b77bbe749bb942497de087034b0ea4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 42/81] hook: route the parallel checker's synchronization
 through a model checker under cfg carcara_mc

---
 carcara/src/ast/context.rs          |   3 +-
 carcara/src/ast/pool/advanced.rs    |   3 +-
 carcara/src/checker/parallel/mod.rs |  11 +-
 carcara/src/lib.rs                  |   2 +
 carcara/src/sync.rs                 | 291 ++++++++++++++++++++++++++++
 5 files changed, 307 insertions(+), 3 deletions(-)
 create mode 100644 carcara/src/sync.rs

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 5c38f74..1372ac0 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -1,5 +1,6 @@
 use crate::ast::*;
-use std::sync::{atomic::AtomicUsize, Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use crate::sync::{AtomicUsize, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::Arc;
 
 #[derive(Debug)]
 pub struct Context {
diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 38b4252..7c06443 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -1,7 +1,8 @@
 use super::super::{Rc, Term};
 use super::{PrimitivePool, TermPool};
+use crate::sync::RwLock;
 use indexmap::IndexSet;
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
 
 pub struct ContextPool {
     pub(crate) global_pool: Arc<PrimitivePool>,
diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 74ae064..7d612bb 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -7,6 +7,7 @@ use super::{
     Config,
 };
 use crate::benchmarking::{CollectResults, OnlineBenchmarkResults};
+use crate::sync::AtomicBool;
 use crate::{ast::rare_rules::Rules, checker::CheckerStatistics};
 use crate::{
     ast::{pool::advanced::*, *},
@@ -16,7 +17,7 @@ use indexmap::IndexSet;
 pub use scheduler::{Schedule, ScheduleIter, Scheduler};
 use std::{
     ops::ControlFlow,
-    sync::{atomic::AtomicBool, Arc},
+    sync::Arc,
     thread,
     time::{Duration, Instant},
 };
@@ -88,11 +89,15 @@ impl<'c> ParallelProofChecker<'c> {
                     let mut local_self = self.share();
                     let local_pool = LocalPool::from_previous(&context_pool);
                     let should_abort = premature_abort.clone();
+                    #[cfg(carcara_mc)]
+                    let token = crate::sync::hooks::token();
 
                     thread::Builder::new()
                         .name(format!("worker-{i}"))
                         .stack_size(self.stack_size)
                         .spawn_scoped(s, move || -> CarcaraResult<(bool, bool)> {
+                            #[cfg(carcara_mc)]
+                            let _worker = crate::sync::hooks::Worker::enter(token, i);
                             local_self.worker_thread_check(
                                 problem,
                                 proof,
@@ -168,6 +173,8 @@ impl<'c> ParallelProofChecker<'c> {
                     let mut local_self = self.share();
                     let local_pool = LocalPool::from_previous(&context_pool);
                     let should_abort = premature_abort.clone();
+                    #[cfg(carcara_mc)]
+                    let token = crate::sync::hooks::token();
 
                     thread::Builder::new()
                         .name(format!("worker-{i}"))
@@ -175,6 +182,8 @@ impl<'c> ParallelProofChecker<'c> {
                         .spawn_scoped(
                             s,
                             move || -> CarcaraResult<(bool, bool, CheckerStatistics<CR>)> {
+                                #[cfg(carcara_mc)]
+                                let _worker = crate::sync::hooks::Worker::enter(token, i);
                                 local_self
                                     .worker_thread_check(
                                         problem,
diff --git a/carcara/src/lib.rs b/carcara/src/lib.rs
index 0ba29bd..78ef16a 100644
--- a/carcara/src/lib.rs
+++ b/carcara/src/lib.rs
@@ -32,6 +32,7 @@
 #![warn(clippy::unnecessary_wraps)]
 #![warn(clippy::unnested_or_patterns)]
 #![warn(clippy::unused_self)]
+#![allow(unexpected_cfgs)] // for `carcara_mc`, see `sync`
 
 #[macro_use]
 pub mod ast;
@@ -43,6 +44,7 @@ pub mod parser;
 mod rare;
 mod resolution;
 pub mod slice;
+pub mod sync;
 mod utils;
 
 use crate::benchmarking::{CollectResults, OnlineBenchmarkResults, RunMeasurement};
diff --git a/carcara/src/sync.rs b/carcara/src/sync.rs
new file mode 100644
index 0000000..ef70e86
--- /dev/null
+++ b/carcara/src/sync.rs
@@ -0,0 +1,291 @@
+//! The synchronization primitives used in the parallel checker. Normally, these are just the
+//! primitives of the standard library. When compiling with `--cfg carcara_mc`, they are instead
+//! wrappers that report each operation to a model checker, see [`hooks`].
+
+#[cfg(not(carcara_mc))]
+pub use std::sync::{
+    atomic::{AtomicBool, AtomicUsize},
+    RwLock, RwLockReadGuard, RwLockWriteGuard,
+};
+
+#[cfg(carcara_mc)]
+pub use wrappers::*;
+
+/// The interface between the instrumented synchronization primitives and a model checker.
+#[cfg(carcara_mc)]
+pub mod hooks {
+    use std::sync::OnceLock;
+
+    /// An operation on a synchronization primitive, which is identified by its address. The
+    /// operations without a suffix are reported right before they happen, and the ones with an
+    /// `Ok` or `Release` suffix right after.
+    #[derive(Debug, Clone, Copy)]
+    pub enum Event {
+        Read(usize),
+        Write(usize),
+        TryRead(usize),
+        TryWrite(usize),
+        TryReadOk(usize),
+        TryWriteOk(usize),
+        ReadRelease(usize),
+        WriteRelease(usize),
+        Atomic(usize),
+    }
+
+    pub trait Hooks: Sync {
+        /// Called by the thread that is about to spawn a worker.
+        fn token(&self) -> usize;
+        /// Called by a new worker, with the token obtained by the thread that spawned it.
+        fn enter(&self, token: usize, worker: usize);
+        /// Called by a worker that is about to finish.
+        fn exit(&self);
+        fn event(&self, event: Event);
+    }
+
+    static HOOKS: OnceLock<&'static dyn Hooks> = OnceLock::new();
+
+    pub fn set(hooks: &'static dyn Hooks) {
+        let _ = HOOKS.set(hooks);
+    }
+
+    pub(super) fn event(event: Event) {
+        if let Some(h) = HOOKS.get() {
+            h.event(event);
+        }
+    }
+
+    pub(crate) fn token() -> usize {
+        HOOKS.get().map_or(0, |h| h.token())
+    }
+
+    pub(crate) struct Worker;
+
+    impl Worker {
+        pub(crate) fn enter(token: usize, worker: usize) -> Self {
+            if let Some(h) = HOOKS.get() {
+                h.enter(token, worker);
+            }
+            Self
+        }
+    }
+
+    impl Drop for Worker {
+        fn drop(&mut self) {
+            if let Some(h) = HOOKS.get() {
+                h.exit();
+            }
+        }
+    }
+}
+
+#[cfg(carcara_mc)]
+mod wrappers {
+    use super::hooks::{event, Event};
+    use std::{
+        ops::{Deref, DerefMut},
+        sync::{atomic::Ordering, LockResult, PoisonError, TryLockError, TryLockResult},
+    };
+
+    #[derive(Debug, Default)]
+    pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
+
+    #[derive(Debug)]
+    pub struct RwLockReadGuard<'a, T: ?Sized>(Option<std::sync::RwLockReadGuard<'a, T>>, usize);
+
+    #[derive(Debug)]
+    pub struct RwLockWriteGuard<'a, T: ?Sized>(Option<std::sync::RwLockWriteGuard<'a, T>>, usize);
+
+    fn map<G, H>(result: LockResult<G>, f: impl FnOnce(G) -> H) -> LockResult<H> {
+        match result {
+            Ok(g) => Ok(f(g)),
+            Err(e) => Err(PoisonError::new(f(e.into_inner()))),
+        }
+    }
+
+    fn try_map<G, H>(result: TryLockResult<G>, f: impl FnOnce(G) -> H) -> TryLockResult<H> {
+        match result {
+            Ok(g) => Ok(f(g)),
+            Err(TryLockError::Poisoned(e)) => Err(PoisonError::new(f(e.into_inner())).into()),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+    impl<T> RwLock<T> {
+        pub const fn new(value: T) -> Self {
+            Self(std::sync::RwLock::new(value))
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> RwLock<T> {
+        fn addr(&self) -> usize {
+            std::ptr::from_ref(self).cast::<()>() as usize
+        }
+
+        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+            event(Event::Read(self.addr()));
+            map(self.0.read(), |g| RwLockReadGuard(Some(g), self.addr()))
+        }
+
+        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+            event(Event::Write(self.addr()));
+            map(self.0.write(), |g| RwLockWriteGuard(Some(g), self.addr()))
+        }
+
+        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+            event(Event::TryRead(self.addr()));
+            try_map(self.0.try_read(), |g| {
+                event(Event::TryReadOk(self.addr()));
+                RwLockReadGuard(Some(g), self.addr())
+            })
+        }
+
+        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+            event(Event::TryWrite(self.addr()));
+            try_map(self.0.try_write(), |g| {
+                event(Event::TryWriteOk(self.addr()));
+                RwLockWriteGuard(Some(g), self.addr())
+            })
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+
+        pub fn is_poisoned(&self) -> bool {
+            self.0.is_poisoned()
+        }
+
+        pub fn clear_poison(&self) {
+            self.0.clear_poison();
+        }
+    }
+
+    impl<T> From<T> for RwLock<T> {
+        fn from(value: T) -> Self {
+            Self::new(value)
+        }
+    }
+
+    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            self.0.as_ref().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            self.0.as_ref().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.0.as_mut().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
+        fn drop(&mut self) {
+            self.0 = None;
+            event(Event::ReadRelease(self.1));
+        }
+    }
+
+    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
+        fn drop(&mut self) {
+            self.0 = None;
+            event(Event::WriteRelease(self.1));
+        }
+    }
+
+    macro_rules! atomic {
+        ($name:ident, $t:ty, $($fetch:ident),*) => {
+            #[derive(Debug, Default)]
+            pub struct $name(std::sync::atomic::$name);
+
+            impl $name {
+                pub const fn new(value: $t) -> Self {
+                    Self(std::sync::atomic::$name::new(value))
+                }
+
+                fn report(&self) -> &std::sync::atomic::$name {
+                    event(Event::Atomic(std::ptr::from_ref(self) as usize));
+                    &self.0
+                }
+
+                pub fn load(&self, order: Ordering) -> $t {
+                    self.report().load(order)
+                }
+
+                pub fn store(&self, value: $t, order: Ordering) {
+                    self.report().store(value, order);
+                }
+
+                pub fn swap(&self, value: $t, order: Ordering) -> $t {
+                    self.report().swap(value, order)
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    current: $t,
+                    new: $t,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$t, $t> {
+                    self.report().compare_exchange(current, new, success, failure)
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $t,
+                    new: $t,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$t, $t> {
+                    self.report().compare_exchange(current, new, success, failure)
+                }
+
+                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    f: F,
+                ) -> Result<$t, $t> {
+                    self.report().fetch_update(set_order, fetch_order, f)
+                }
+
+                pub fn get_mut(&mut self) -> &mut $t {
+                    self.0.get_mut()
+                }
+
+                pub fn into_inner(self) -> $t {
+                    self.0.into_inner()
+                }
+
+                $(
+                    pub fn $fetch(&self, value: $t, order: Ordering) -> $t {
+                        self.report().$fetch(value, order)
+                    }
+                )*
+            }
+        };
+    }
+
+    atomic!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
+    atomic!(
+        AtomicUsize,
+        usize,
+        fetch_add,
+        fetch_sub,
+        fetch_max,
+        fetch_min,
+        fetch_and,
+        fetch_or
+    );
+}
-- 
2.43.0


From afda7b765b548423c909ede8f442c74f36f465b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 43/81] fix: the parser resolves locally bound names before
 definitions and operators

---
 carcara/src/parser/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 1c2d4e6..52d6e34 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -212,6 +212,17 @@ impl<'a, R: BufRead> Parser<'a, R> {
         self.state.symbol_table.insert(HashCache::new(symbol), sort);
     }
 
+    /// Returns `true` if the given name is bound by a binder, a `let`, an anchor or the parameters
+    /// of a definition. Such a name shadows any definition or predefined operator of the same name.
+    fn is_local_name(&self, name: &str) -> bool {
+        self.state.symbol_table.height() > 1
+            && self
+                .state
+                .symbol_table
+                .get_with_depth(&HashCache::new(name.to_owned()))
+                .is_some_and(|(depth, _)| depth > 0)
+    }
+
     /// Shortcut for `self.problem.as_mut().unwrap().prelude`
     fn prelude(&mut self) -> &mut ProblemPrelude {
         &mut self.problem.as_mut().unwrap().prelude
@@ -1340,7 +1351,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
             (Token::String(s), _) => Term::new_string(s),
             (Token::Symbol(s), pos) => {
                 // Check to see if there is a nullary function defined with this name
-                return if let Some(func) = self.state.function_defs.get(&s) {
+                return if self.is_local_name(&s) {
+                    self.make_var(s).map_err(|err| Error::Parser(err, pos))
+                } else if let Some(func) = self.state.function_defs.get(&s) {
                     func.apply(self.pool, Vec::new())
                         .map_err(|err| Error::Parser(err, pos))
                 } else if let Ok(op) = Operator::from_str(&s) {
@@ -1751,6 +1764,14 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     )),
                 }
             }
+            // A name that is bound in the current scope shadows predefined operators and function
+            // definitions with the same name
+            Token::Symbol(s) if self.is_local_name(s) => {
+                let func = self.parse_term()?;
+                let args = self.parse_sequence(Self::parse_term, true)?;
+                self.make_app(func, args)
+                    .map_err(|err| Error::Parser(err, head_pos))
+            }
             // Here, I would like to use an `if let` guard, like:
             //
             //     Token::Symbol(s) if let Ok(operator) = Operator::from_str(s) => { ... }
-- 
2.43.0


From 01505692fc0f294c49f61fcc68da0b906f751d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 44/81] fix: the parser does not expand a definition where one
 of its free variables is captured

---
 carcara/src/parser/error.rs |  5 ++++
 carcara/src/parser/mod.rs   | 56 +++++++++++++++++++++++++++++++++----
 carcara/src/utils.rs        | 14 ++++++++++
 3 files changed, 69 insertions(+), 6 deletions(-)

diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 4be8625..2e7722e 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -81,6 +81,11 @@ pub enum ParserError {
     #[error("identifier '{0}' is not defined")]
     UndefinedIden(String),
 
+    /// A function definition was applied in a scope where one of the names that are free in its
+    /// body is bound to something else, so expanding the definition would change its meaning.
+    #[error("cannot expand definition of '{definition}' where '{name}' is shadowed")]
+    ShadowedNameInDefinition { definition: String, name: String },
+
     /// The parser encountered a sort that was not defined.
     #[error("sort '{0}' is not defined")]
     UndefinedSort(String),
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 52d6e34..c7057c3 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -104,6 +104,10 @@ pub fn parse_instance_with_pool<T: BufRead>(
 struct FunctionDef {
     params: Vec<SortedVar>,
     body: Rc<Term>,
+
+    /// The variables that are free in the definition and, for each one, the depth of the symbol
+    /// table scope where it was bound when the definition was made.
+    free_vars: Vec<((HashCache<String>, Rc<Term>), usize)>,
 }
 
 impl FunctionDef {
@@ -1229,7 +1233,46 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
         self.expect_token(Token::CloseParen)?;
 
-        Ok((name, FunctionDef { params, body }))
+        let mut free_vars = Vec::new();
+        for var in self.pool.free_vars(&body) {
+            if let Term::Var(name, sort) = var.as_ref() {
+                if params.iter().any(|(n, s)| n == name && s == sort) {
+                    continue;
+                }
+                let var = (HashCache::new(name.clone()), sort.clone());
+                if let Some((depth, _)) = self.state.symbol_table.get_with_depth(&var.0) {
+                    free_vars.push((var, depth));
+                }
+            }
+        }
+
+        Ok((name, FunctionDef { params, body, free_vars }))
+    }
+
+    /// Applies the function definition with the given name to a list of arguments. Returns an error
+    /// if a variable that is free in the definition was rebound around the application, as expanding
+    /// the definition there would capture it.
+    fn apply_function_def(
+        &mut self,
+        name: &str,
+        args: Vec<Rc<Term>>,
+    ) -> Result<Rc<Term>, ParserError> {
+        let table = &self.state.symbol_table;
+        let func = &self.state.function_defs[name];
+        if table.height() > 1 {
+            for ((free, sort), depth) in &func.free_vars {
+                if table
+                    .get_all_with_depth(free)
+                    .any(|(d, s)| d > *depth && s == sort)
+                {
+                    return Err(ParserError::ShadowedNameInDefinition {
+                        definition: name.to_owned(),
+                        name: free.as_ref().clone(),
+                    });
+                }
+            }
+        }
+        func.apply(self.pool, args)
     }
 
     /// Adds the premise corresponding to a `define-fun-rec` function definition.
@@ -1353,8 +1396,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 // Check to see if there is a nullary function defined with this name
                 return if self.is_local_name(&s) {
                     self.make_var(s).map_err(|err| Error::Parser(err, pos))
-                } else if let Some(func) = self.state.function_defs.get(&s) {
-                    func.apply(self.pool, Vec::new())
+                } else if self.state.function_defs.contains_key(&s) {
+                    self.apply_function_def(&s, Vec::new())
                         .map_err(|err| Error::Parser(err, pos))
                 } else if let Ok(op) = Operator::from_str(&s) {
                     let args = Vec::new();
@@ -1490,6 +1533,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         let func_def = FunctionDef {
                             params: Vec::new(),
                             body: inner.clone(),
+                            // A named term that contains bound variables only makes sense in the
+                            // scope of those variables, so we don't track where they are bound
+                            free_vars: Vec::new(),
                         };
                         p.state.function_defs.insert(name, func_def);
                         Ok(())
@@ -1830,9 +1876,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 let head_pos = self.current_position;
                 let func_name = self.expect_symbol()?;
                 let args = self.parse_sequence(Self::parse_term, true)?;
-                let func = self.state.function_defs.get(&func_name).unwrap();
-
-                func.apply(self.pool, args)
+                self.apply_function_def(&func_name, args)
                     .map_err(|err| Error::Parser(err, head_pos))
             }
             Token::OpenParen => {
diff --git a/carcara/src/utils.rs b/carcara/src/utils.rs
index 3ad9401..d3f9a85 100644
--- a/carcara/src/utils.rs
+++ b/carcara/src/utils.rs
@@ -162,6 +162,20 @@ impl<K: Eq + Hash, V> HashMapStack<K, V> {
             .find_map(|(depth, scope)| scope.get(key).map(|v| (depth, v)))
     }
 
+    /// Returns all the values that are associated with a key, together with the depths of their
+    /// scopes, starting from the innermost scope.
+    pub fn get_all_with_depth<'a, Q>(&'a self, key: &'a Q) -> impl Iterator<Item = (usize, &'a V)>
+    where
+        K: Borrow<Q>,
+        Q: Eq + Hash + ?Sized,
+    {
+        self.scopes
+            .iter()
+            .enumerate()
+            .rev()
+            .filter_map(move |(depth, scope)| scope.get(key).map(|v| (depth, v)))
+    }
+
     pub fn insert(&mut self, key: K, value: V) {
         self.scopes.last_mut().unwrap().insert(key, value);
     }
-- 
2.43.0


From 6f264ffb7dcc6d1d60d0ccd0c3ff123a23bed345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 45/81] fix: the lexer rejects a fraction without a denominator
 instead of panicking

---
 carcara/src/parser/lexer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/carcara/src/parser/lexer.rs b/carcara/src/parser/lexer.rs
index 0323dc9..c47024e 100644
--- a/carcara/src/parser/lexer.rs
+++ b/carcara/src/parser/lexer.rs
@@ -385,6 +385,16 @@ impl<R: BufRead> Lexer<R> {
             }
             let r = match delimiter {
                 '/' => {
+                    // The denominator is not optional
+                    if second_part.is_empty() {
+                        return Err(match self.current_char {
+                            Some(c) => Error::Parser(ParserError::UnexpectedChar(c), self.position),
+                            None => Error::Parser(
+                                ParserError::UnexpectedToken(Token::Eof),
+                                self.position,
+                            ),
+                        });
+                    }
                     let [numer, denom] =
                         [first_part, second_part].map(|s| s.parse::<Integer>().unwrap());
                     if denom.is_zero() {
-- 
2.43.0


From 4aba058647320b5383719351253958d7a7b13e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 46/81] fix: the parser requires the assertions of a problem to
 be Boolean

---
 carcara/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index c7057c3..e31eae2 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -808,13 +808,14 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     self.state.sort_defs.insert(name, def);
                 }
                 Token::ReservedWord(Reserved::Assert) => {
-                    let term = self.parse_term()?;
+                    let term = self.parse_term_expecting_sort(&Sort::Bool)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().insert(term);
                 }
                 Token::ReservedWord(Reserved::CheckSatAssuming) => {
                     self.expect_token(Token::OpenParen)?;
-                    let terms = self.parse_sequence(Self::parse_term, true)?;
+                    let terms =
+                        self.parse_sequence(|p| p.parse_term_expecting_sort(&Sort::Bool), true)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().extend(terms);
                 }
-- 
2.43.0


From 8b9a0ecc880a20dcfbfacd454ad10e63fa6efa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 47/81] fix: the parameters of a define-sort shadow the sorts
 with the same names

---
 carcara/src/parser/mod.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index e31eae2..317ee08 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -142,7 +142,7 @@ impl FunctionDef {
 /// A sort definition, from a `define-sort` command.
 #[derive(Debug)]
 struct SortDef {
-    params: Vec<String>,
+    params: Vec<Rc<Term>>,
     body: Rc<Term>,
 }
 
@@ -1363,6 +1363,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
         }
         let body = self.parse_sort(false)?;
         self.state.sort_declarations.pop_scope();
+        let params = params.iter().map(|p| self.make_sort_parameter(p)).collect();
 
         self.expect_token(Token::CloseParen)?;
 
@@ -1914,12 +1915,24 @@ impl<'a, R: BufRead> Parser<'a, R> {
         }
     }
 
+    /// Constructs the placeholder for a parameter of a sort definition. Its name is not a valid
+    /// symbol, so it cannot be confused with a declared sort that has the name of the parameter.
+    fn make_sort_parameter(&mut self, name: &str) -> Rc<Term> {
+        let name = format!("|{name}").into_boxed_str();
+        self.pool.add(Term::Sort(Sort::Atom(name, Box::new([]))))
+    }
+
     fn make_sort(
         &mut self,
         name: String,
         args: Vec<Rc<Term>>,
         polymorphic: bool,
     ) -> Result<Rc<Term>, ParserError> {
+        // The parameters of a sort definition shadow any other sorts in its body
+        if matches!(self.state.sort_declarations.get_with_depth(&name), Some((d, _)) if d > 0) {
+            assert_num_args(&args, 0)?;
+            return Ok(self.make_sort_parameter(&name));
+        }
         let sort = match name.as_str() {
             "Bool" | "Int" | "Real" | "String" | "RegLan" if !args.is_empty() => {
                 Err(ParserError::WrongNumberOfArgs(0.into(), args.len()))
@@ -1951,16 +1964,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 } else if def.params.is_empty() {
                     Ok(def.body.clone())
                 } else {
-                    let substitution = def
-                        .params
-                        .iter()
-                        .cloned()
-                        .map(|name| {
-                            self.pool
-                                .add(Term::Sort(Sort::Atom(name.into_boxed_str(), Box::new([]))))
-                        })
-                        .zip(args)
-                        .collect();
+                    let substitution = def.params.iter().cloned().zip(args).collect();
 
                     let result = Substitution::new(self.pool, substitution)
                         .unwrap()
-- 
2.43.0


From 5a965afbe4e3eac377f2c8171e5b59b967926476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 48/81] fix: quote discharged ids, rule names and symbols that
 look like negative numerals when printing a proof

---
 carcara/src/ast/printer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index ba79f0d..982106f 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -377,7 +377,7 @@ impl<'a> AlethePrinter<'a> {
         }
         write!(self.inner, ")")?;
 
-        write!(self.inner, " :rule {}", step.rule)?;
+        write!(self.inner, " :rule {}", quote_symbol(&step.rule))?;
 
         if let [head, tail @ ..] = step.premises.as_slice() {
             let id = iter.get_premise(*head).id();
@@ -401,7 +401,7 @@ impl<'a> AlethePrinter<'a> {
 
         if let [head, tail @ ..] = step.discharge.as_slice() {
             let id = iter.get_premise(*head).id();
-            write!(self.inner, " :discharge ({}", id)?;
+            write!(self.inner, " :discharge ({}", quote_symbol(id))?;
             for discharge in tail {
                 let id = iter.get_premise(*discharge).id();
                 write!(self.inner, " {}", quote_symbol(id))?;
@@ -443,12 +443,15 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 
     // Any symbol that:
     // - is an empty string,
-    // - starts with a digit,
+    // - starts with a digit, or with a minus sign followed by a digit (as in GMP-style numerals),
     // - is a reserved word, or
     // - contains non-symbol characters
     // must be quoted
     if symbol.is_empty()
-        || symbol.chars().next().unwrap().is_ascii_digit()
+        || symbol
+            .strip_prefix('-')
+            .unwrap_or(symbol)
+            .starts_with(|c: char| c.is_ascii_digit())
         || Reserved::from_str(symbol).is_ok()
         || symbol.chars().any(|c| !is_symbol_character(c))
     {
-- 
2.43.0


From d4ce37bf741a5bc9a29e6c6b2444689ef8a197f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 49/81] fix: print constant arrays as qualified operators

---
 carcara/src/ast/printer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 982106f..cff77c7 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -358,7 +358,13 @@ impl<'a> AlethePrinter<'a> {
                 if !args.is_empty() {
                     write!(self.inner, "(")?;
                 }
-                write!(self.inner, "(_ {}", op)?;
+                // Qualified operators are written as `(as op sort)`, and indexed operators as
+                // `(_ op index ...)`
+                let head = match op {
+                    ParamOperator::ArrayConst => "as",
+                    _ => "_",
+                };
+                write!(self.inner, "({} {}", head, op)?;
                 self.write_s_expr_tail(op_args)?;
                 if !args.is_empty() {
                     self.write_s_expr_tail(args)?;
-- 
2.43.0


From c4c2baee805b4580621d3abb4c1a435b6b80490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 50/81] fix: do not print a definition or a shared name where a
 variable of the term is shadowed

---
 carcara/src/ast/printer.rs | 49 ++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index cff77c7..9b57ba6 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -102,7 +102,9 @@ impl<T: PrintWithSharing> PrintWithSharing for &T {
 impl PrintWithSharing for Rc<Term> {
     fn print_with_sharing(&self, p: &mut AlethePrinter) -> io::Result<()> {
         if let Some(name) = p.defined_constants.get(self) {
-            return write!(p.inner, "{}", quote_symbol(name));
+            if !p.bound_names.contains(name) && !has_captured_variables(p.pool, &p.bound_names, self) {
+                return write!(p.inner, "{}", quote_symbol(name));
+            }
         }
         if let Some(indices) = &mut p.term_indices {
             // There are a few cases where we don't use sharing when printing a term:
@@ -122,7 +124,10 @@ impl PrintWithSharing for Rc<Term> {
                 || Rc::strong_count(self) <= 3
                 // - Terms which are not closed, that is, terms which have free variables besides
                 // the global variables, cannot be shared
-                || !self.is_closed(p.pool, &p.global_vars);
+                || !self.is_closed(p.pool, &p.global_vars)
+                // - Terms with a global variable that is shadowed in the current scope cannot be
+                // shared either
+                || has_captured_variables(p.pool, &p.bound_names, self);
 
             if !cannot_use_sharing {
                 return if let Some(i) = indices.get(self) {
@@ -183,6 +188,9 @@ struct AlethePrinter<'a> {
     term_sharing_variable_prefix: &'static str,
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
+
+    /// The names bound by the binders and anchors that surround the term being printed.
+    bound_names: Vec<String>,
     smt_lib_strict: bool,
 }
 
@@ -202,6 +210,7 @@ impl PrintProof for AlethePrinter<'_> {
             .map(|(name, term)| (term, name))
             .collect();
         let mut iter = proof.iter();
+        let mut scopes = Vec::new();
         while let Some(command) = iter.next() {
             match command {
                 ProofCommand::Assume { id, term } => {
@@ -211,6 +220,7 @@ impl PrintProof for AlethePrinter<'_> {
                 }
                 ProofCommand::Step(s) => self.write_step(&mut iter, s)?,
                 ProofCommand::Subproof(s) => {
+                    scopes.push(self.bound_names.len());
                     write!(self.inner, "(anchor :step {}", quote_symbol(command.id()))?;
 
                     if !s.args.is_empty() {
@@ -227,6 +237,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, "({} ", quote_symbol(name))?;
                                     sort.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.bound_names.push(name.clone());
                                 }
                                 AnchorArg::Assign(var, value) => {
                                     write!(self.inner, "(:= ")?;
@@ -234,6 +245,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, " ")?;
                                     value.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.bound_names.push(var.0.clone());
                                 }
                             }
                         }
@@ -244,6 +256,9 @@ impl PrintProof for AlethePrinter<'_> {
                 }
             }
             writeln!(self.inner)?;
+            if iter.is_end_step() {
+                self.bound_names.truncate(scopes.pop().unwrap());
+            }
         }
         self.defined_constants.clear();
         Ok(())
@@ -273,6 +288,7 @@ impl<'a> AlethePrinter<'a> {
             term_sharing_variable_prefix: "@p_",
             global_vars: global_variables,
             defined_constants: HashMap::new(),
+            bound_names: Vec::new(),
             smt_lib_strict: false,
         }
     }
@@ -295,6 +311,16 @@ impl<'a> AlethePrinter<'a> {
         write!(self.inner, ")")
     }
 
+    /// Writes `term`, which is in the scope of `bindings`.
+    fn write_in_scope(&mut self, bindings: &BindingList, term: &Rc<Term>) -> io::Result<()> {
+        let num_bound = self.bound_names.len();
+        self.bound_names
+            .extend(bindings.iter().map(|(name, _)| name.clone()));
+        let result = term.print_with_sharing(self);
+        self.bound_names.truncate(num_bound);
+        result
+    }
+
     fn write_raw_term(&mut self, term: &Term) -> io::Result<()> {
         match term {
             Term::Const(c) => {
@@ -344,14 +370,14 @@ impl<'a> AlethePrinter<'a> {
                 write!(self.inner, "({} ", binder)?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
-                term.print_with_sharing(self)?;
+                self.write_in_scope(bindings, term)?;
                 write!(self.inner, ")")
             }
             Term::Let(bindings, term) => {
                 write!(self.inner, "(let ")?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
-                term.print_with_sharing(self)?;
+                self.write_in_scope(bindings, term)?;
                 write!(self.inner, ")")
             }
             Term::ParamOp { op, op_args, args } => {
@@ -441,6 +467,20 @@ where
     write!(f, ")")
 }
 
+/// Returns `true` if one of the free variables of `term` has a name that is bound in the current
+/// scope.
+fn has_captured_variables(
+    pool: &mut PrimitivePool,
+    bound_names: &[String],
+    term: &Rc<Term>,
+) -> bool {
+    !bound_names.is_empty()
+        && pool.free_vars(term).iter().any(|v| {
+            v.as_var()
+                .is_some_and(|name| bound_names.iter().any(|bound| bound == name))
+        })
+}
+
 fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     use crate::parser::Reserved;
     use std::str::FromStr;
@@ -490,6 +530,7 @@ impl fmt::Display for Term {
             term_sharing_variable_prefix: "@p_",
             global_vars: HashSet::new(),
             defined_constants: HashMap::new(),
+            bound_names: Vec::new(),
             smt_lib_strict: false,
         };
         printer.write_raw_term(self).unwrap();
-- 
2.43.0


From 6ea29b9c831165e7bba9d13df15850964972bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 51/81] fix: print the empty clause as an application

---
 carcara/src/ast/printer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 9b57ba6..ab9d756 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -359,7 +359,8 @@ impl<'a> AlethePrinter<'a> {
             Term::Var(name, _) => write!(self.inner, "{}", quote_symbol(name)),
             Term::App(func, args) => self.write_s_expr(func, args),
             Term::Op(op, args) => {
-                if args.is_empty() {
+                // The empty clause is the only application without arguments
+                if args.is_empty() && *op != Operator::Cl {
                     write!(self.inner, "{}", op)
                 } else {
                     self.write_s_expr(op, args)
-- 
2.43.0


From dc8f2faf5b30ccb9f04f1d40d6a1cab03a63bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 52/81] fix: share terms under names that the problem and the
 proof do not use

---
 carcara/src/ast/printer.rs | 46 +++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index ab9d756..86f384d 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -102,7 +102,9 @@ impl<T: PrintWithSharing> PrintWithSharing for &T {
 impl PrintWithSharing for Rc<Term> {
     fn print_with_sharing(&self, p: &mut AlethePrinter) -> io::Result<()> {
         if let Some(name) = p.defined_constants.get(self) {
-            if !p.bound_names.contains(name) && !has_captured_variables(p.pool, &p.bound_names, self) {
+            if !p.bound_names.contains(name)
+                && !has_captured_variables(p.pool, &p.bound_names, self)
+            {
                 return write!(p.inner, "{}", quote_symbol(name));
             }
         }
@@ -130,15 +132,24 @@ impl PrintWithSharing for Rc<Term> {
                 || has_captured_variables(p.pool, &p.bound_names, self);
 
             if !cannot_use_sharing {
-                return if let Some(i) = indices.get(self) {
-                    write!(p.inner, "{}{}", p.term_sharing_variable_prefix, i)
+                if let Some(name) = indices.get(self) {
+                    if !p.bound_names.contains(name) {
+                        return write!(p.inner, "{}", name);
+                    }
                 } else {
-                    let i = indices.len();
-                    indices.insert(self.clone(), i);
+                    // The name must not be one that the problem or the proof already uses
+                    let name = (p.next_term_index..)
+                        .map(|i| {
+                            p.next_term_index = i + 1;
+                            format!("{}{}", p.term_sharing_variable_prefix, i)
+                        })
+                        .find(|name| !p.used_names.contains(name) && !p.bound_names.contains(name))
+                        .unwrap();
+                    indices.insert(self.clone(), name.clone());
                     write!(p.inner, "(! ")?;
                     p.write_raw_term(self)?;
-                    write!(p.inner, " :named {}{})", p.term_sharing_variable_prefix, i)
-                };
+                    return write!(p.inner, " :named {})", name);
+                }
             }
         }
         p.write_raw_term(self)
@@ -184,18 +195,28 @@ impl PrintWithSharing for ParamOperator {
 struct AlethePrinter<'a> {
     pool: &'a mut PrimitivePool,
     inner: &'a mut dyn io::Write,
-    term_indices: Option<IndexMap<Rc<Term>, usize>>,
+    term_indices: Option<IndexMap<Rc<Term>, String>>,
     term_sharing_variable_prefix: &'static str,
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
 
     /// The names bound by the binders and anchors that surround the term being printed.
     bound_names: Vec<String>,
+
+    /// The names of the declared functions and of the definitions, which are not used for sharing.
+    used_names: HashSet<String>,
+    next_term_index: usize,
     smt_lib_strict: bool,
 }
 
 impl PrintProof for AlethePrinter<'_> {
     fn write_proof(&mut self, proof: &Proof) -> io::Result<()> {
+        self.used_names.extend(
+            proof
+                .constant_definitions
+                .iter()
+                .map(|(name, _)| name.clone()),
+        );
         for (name, value) in &proof.constant_definitions {
             write!(self.inner, "(define-fun {} () ", quote_symbol(name))?;
             self.pool.sort(value).print_with_sharing(self)?;
@@ -281,6 +302,11 @@ impl<'a> AlethePrinter<'a> {
         } else {
             HashSet::new()
         };
+        let used_names = prelude
+            .function_declarations
+            .iter()
+            .map(|(name, _)| name.clone())
+            .collect();
         Self {
             pool,
             inner: dest,
@@ -289,6 +315,8 @@ impl<'a> AlethePrinter<'a> {
             global_vars: global_variables,
             defined_constants: HashMap::new(),
             bound_names: Vec::new(),
+            used_names,
+            next_term_index: 0,
             smt_lib_strict: false,
         }
     }
@@ -532,6 +560,8 @@ impl fmt::Display for Term {
             global_vars: HashSet::new(),
             defined_constants: HashMap::new(),
             bound_names: Vec::new(),
+            used_names: HashSet::new(),
+            next_term_index: 0,
             smt_lib_strict: false,
         };
         printer.write_raw_term(self).unwrap();
-- 
2.43.0


From ae1a6cf194eee07bc41d53490afeb93afa67f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 53/81] fix: give unique ids to the commands of an elaborated
 proof

---
 carcara/src/ast/node.rs | 52 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/node.rs b/carcara/src/ast/node.rs
index 8232b7d..a066903 100644
--- a/carcara/src/ast/node.rs
+++ b/carcara/src/ast/node.rs
@@ -1,4 +1,5 @@
 use super::*;
+use indexmap::IndexMap;
 
 /// An alternative, graph-based representation for an Alethe proof.
 ///
@@ -356,11 +357,45 @@ fn proof_list_to_nodes(commands: Vec<ProofCommand>) -> ProofNodeForest {
     ProofNodeForest(new_root_proof)
 }
 
+/// Makes sure that the ids of the commands in a list are unique.
+///
+/// The nodes that are added to a proof during elaboration get ids that are derived from the id of the
+/// step they replace, and another node may already be using them.
+#[derive(Default)]
+struct UniqueIds {
+    /// The ids in the scopes that are currently open, with the depth of their scope.
+    in_use: IndexMap<String, usize>,
+}
+
+impl UniqueIds {
+    fn add(&mut self, id: &str, depth: usize) -> String {
+        let mut new = id.to_owned();
+        let mut suffix = 0;
+        while self.in_use.contains_key(&new) {
+            suffix += 1;
+            new = format!("{}.r{}", id, suffix);
+        }
+        self.in_use.insert(new.clone(), depth);
+        new
+    }
+
+    fn close_scope(&mut self, depth: usize) {
+        while let Some((_, d)) = self.in_use.last() {
+            if *d < depth {
+                break;
+            }
+            self.in_use.pop();
+        }
+    }
+}
+
 /// Converts a `ProofNode` into a list of proof commands.
 fn proof_nodes_to_list(proof: &ProofNodeForest) -> Vec<ProofCommand> {
     use std::collections::{HashMap, HashSet};
 
     let mut stack: Vec<Vec<ProofCommand>> = vec![Vec::new()];
+    let mut ids = UniqueIds::default();
+    let mut last_steps: Vec<(&Rc<ProofNode>, String)> = Vec::new();
 
     let mut seen: HashMap<&Rc<ProofNode>, (usize, usize)> = HashMap::new();
     let mut todo: Vec<(&Rc<ProofNode>, bool)> =
@@ -377,9 +412,10 @@ fn proof_nodes_to_list(proof: &ProofNodeForest) -> Vec<ProofCommand> {
         }
 
         let command = match node.as_ref() {
-            ProofNode::Assume { id, term, .. } => {
-                ProofCommand::Assume { id: id.clone(), term: term.clone() }
-            }
+            ProofNode::Assume { id, depth, term } => ProofCommand::Assume {
+                id: ids.add(id, *depth),
+                term: term.clone(),
+            },
             ProofNode::Step(s) if !is_done => {
                 todo.push((node, true));
 
@@ -394,8 +430,12 @@ fn proof_nodes_to_list(proof: &ProofNodeForest) -> Vec<ProofCommand> {
             ProofNode::Step(s) => {
                 let premises: Vec<_> = s.premises.iter().map(|node| seen[node]).collect();
                 let discharge: Vec<_> = s.discharge.iter().map(|node| seen[node]).collect();
+                let id = match last_steps.last() {
+                    Some((last_step, id)) if *last_step == node => id.clone(),
+                    _ => ids.add(&s.id, s.depth),
+                };
                 ProofCommand::Step(ProofStep {
-                    id: s.id.clone(),
+                    id,
                     clause: s.clause.clone(),
                     rule: s.rule.clone(),
                     premises,
@@ -421,10 +461,14 @@ fn proof_nodes_to_list(proof: &ProofNodeForest) -> Vec<ProofCommand> {
                 todo.push((&s.last_step, false));
                 todo.extend(s.extra_steps.iter().rev().map(|node| (node, false)));
                 stack.push(Vec::new());
+                // The id of the last step is visible in the whole subproof, and after it
+                last_steps.push((&s.last_step, ids.add(node.id(), node.depth())));
                 continue;
             }
             ProofNode::Subproof(s) => {
                 let commands = stack.pop().unwrap();
+                ids.close_scope(node.depth() + 1);
+                last_steps.pop();
                 if stack.is_empty() {
                     unreachable!();
                 }
-- 
2.43.0


From 3520c7df9eed562011267b0fe9f8a6f484c450fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 54/81] fix: keep reordering steps that are still needed when
 removing reorderings

---
 carcara/src/elaborator/reordering.rs | 113 +++++++++++++++++----------
 1 file changed, 73 insertions(+), 40 deletions(-)

diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index 6267e7f..de27a67 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -1,5 +1,8 @@
 use super::*;
-use crate::utils::DedupIterator;
+use crate::{
+    resolution::Literal,
+    utils::{DedupIterator, MultiSet},
+};
 
 pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
     proof.mutate(|_, node, premises_changed| {
@@ -7,28 +10,65 @@ pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
             return node.clone();
         };
 
-        // For reordering steps, we remove the step and return its only premise
-        if step.rule == "reordering" {
+        // For reordering steps, we remove the step and return its only premise. If the premise is
+        // outside of the subproof that the step is in, the step has to stay, as it might be the one
+        // that the subproof concludes
+        if step.rule == "reordering" && step.premises[0].depth() == step.depth {
             return step.premises[0].clone();
         }
 
-        // If the rule is order-sensitive, and any premise was modified, we recompute the conclusion
+        // If the rule is order-sensitive, and any premise was modified, we recompute the conclusion.
+        // If it is not a permutation of the current conclusion, then the step does not depend on
+        // the order of its premises' literals
         if let Some(recompute) = get_recomputation_func(&step.rule) {
             if premises_changed {
-                let new = Rc::new(ProofNode::Step(StepNode {
-                    clause: recompute(step),
-                    ..step.clone()
-                }));
-                return new;
+                if let Some(clause) = recompute(step) {
+                    let old: MultiSet<_> = step.clause.iter().collect();
+                    let new: MultiSet<_> = clause.iter().collect();
+                    if old.0 == new.0 {
+                        return Rc::new(ProofNode::Step(StepNode { clause, ..step.clone() }));
+                    }
+                }
             }
         }
 
+        // The `and_intro` rule is also order-sensitive, but there the order is determined by the
+        // conclusion, so the modified premises have to be reordered again
+        if step.rule == "and_intro" && premises_changed {
+            return reorder_premises(step);
+        }
+
         // Otherwise the node is unchanged
         node.clone()
     })
 }
 
-type RecomputationFunc = fn(&StepNode) -> Vec<Rc<Term>>;
+/// Adds `reordering` steps for the premises of an `and_intro` step whose clauses are not in the
+/// order of the corresponding `or` terms in its conclusion.
+fn reorder_premises(step: &StepNode) -> Rc<ProofNode> {
+    let mut new_step = step.clone();
+    if let Some(args) = step.clause.first().and_then(|t| match_term!((and ...) = t)) {
+        let mut ids = IdHelper::new(&step.id);
+        for (premise, arg) in new_step.premises.iter_mut().zip(args) {
+            let Some(expected) = match_term!((or ...) = arg) else {
+                continue;
+            };
+            if premise.clause().len() > 1 && premise.clause() != expected {
+                *premise = Rc::new(ProofNode::Step(StepNode {
+                    id: ids.next_id(),
+                    depth: step.depth,
+                    clause: expected.to_vec(),
+                    rule: "reordering".to_owned(),
+                    premises: vec![premise.clone()],
+                    ..Default::default()
+                }));
+            }
+        }
+    }
+    Rc::new(ProofNode::Step(new_step))
+}
+
+type RecomputationFunc = fn(&StepNode) -> Option<Vec<Rc<Term>>>;
 
 fn get_recomputation_func(rule: &str) -> Option<RecomputationFunc> {
     Some(match rule {
@@ -39,26 +79,27 @@ fn get_recomputation_func(rule: &str) -> Option<RecomputationFunc> {
     })
 }
 
-fn recompute_weakening(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_weakening(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let mut new = step.clause.clone();
     let premise = step.premises[0].clause();
-    new[..premise.len()].clone_from_slice(premise);
-    new
+    new.get_mut(..premise.len())?.clone_from_slice(premise);
+    Some(new)
 }
 
-fn recompute_contraction(step: &StepNode) -> Vec<Rc<Term>> {
-    let new: Vec<_> = step.premises[0].clause().iter().dedup().cloned().collect();
-    assert_eq!(step.clause.len(), new.len());
-    new
+fn recompute_contraction(step: &StepNode) -> Option<Vec<Rc<Term>>> {
+    Some(step.premises[0].clause().iter().dedup().cloned().collect())
 }
 
-fn recompute_resolution(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_resolution(step: &StepNode) -> Option<Vec<Rc<Term>>> {
+    if step.args.is_empty() {
+        return None;
+    }
     let premise_clauses: Vec<_> = step.premises.iter().map(|p| p.clause()).collect();
     let pivots: Vec<_> = step
         .args
         .chunks(2)
         .map(|chunk| {
-            let pivot = &chunk[0];
+            let pivot = chunk[0].remove_all_negations();
             let polarity = chunk[1].is_bool_true();
             (pivot, polarity)
         })
@@ -66,34 +107,26 @@ fn recompute_resolution(step: &StepNode) -> Vec<Rc<Term>> {
     apply_naive_resolution(&premise_clauses, &pivots)
 }
 
-fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]) -> Vec<Rc<Term>> {
-    assert!(premises.len() >= 2);
-    assert_eq!(pivots.len(), premises.len() - 1);
-
-    let mut current = premises[0].to_vec();
+fn apply_naive_resolution(
+    premises: &[&[Rc<Term>]],
+    pivots: &[(Literal, bool)],
+) -> Option<Vec<Rc<Term>>> {
+    let mut current = premises.first()?.to_vec();
 
     for (&premise, &(pivot, polarity)) in premises[1..].iter().zip(pivots) {
         let is_pivot = |x: &Rc<Term>, is_current: bool| {
-            if is_current == polarity {
-                x == pivot
-            } else {
-                x.remove_negation() == Some(pivot)
-            }
+            let (negations, inner) = x.remove_all_negations();
+            let expected = pivot.0 + (is_current != polarity) as u32;
+            (negations, inner) == (expected, pivot.1)
         };
 
-        let pos = current.iter().position(|x| is_pivot(x, true)).unwrap();
+        let pos = current.iter().position(|x| is_pivot(x, true))?;
         current.remove(pos);
 
-        let mut found = false;
-        for t in premise {
-            if !found && is_pivot(t, false) {
-                found = true;
-            } else {
-                current.push(t.clone());
-            }
-        }
-        assert!(found);
+        let pos = premise.iter().position(|x| is_pivot(x, false))?;
+        current.extend_from_slice(&premise[..pos]);
+        current.extend_from_slice(&premise[pos + 1..]);
     }
 
-    current
+    Some(current)
 }
-- 
2.43.0


From 4602c71206c959b061ee2467de5697e2d9c7ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 55/81] fix: contract literals that a premise eliminates and
 repeats when uncrowding

---
 carcara/src/elaborator/uncrowding.rs | 44 ++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/carcara/src/elaborator/uncrowding.rs b/carcara/src/elaborator/uncrowding.rs
index 4bf64f5..0d2254f 100644
--- a/carcara/src/elaborator/uncrowding.rs
+++ b/carcara/src/elaborator/uncrowding.rs
@@ -147,7 +147,12 @@ fn add_partial_resolution_step<'a>(
     premises: &[ResolutionPremise<'a>],
     final_target: &[Rc<Term>],
 ) -> (Rc<ProofNode>, Vec<Literal<'a>>) {
-    let conclusion = apply_naive_resolution(premises);
+    // If the first premise has repeated literals that are eliminated by the second, it has to be
+    // contracted by itself
+    let conclusion = match premises {
+        [p] => p.clause.clone(),
+        _ => apply_naive_resolution(premises),
+    };
     let contracted_conclusion: Vec<_> = conclusion.iter().dedup().copied().collect();
 
     let needs_contraction = contracted_conclusion.len() != conclusion.len();
@@ -160,16 +165,19 @@ fn add_partial_resolution_step<'a>(
         })
         .collect();
 
-    let resolution_step = Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: literals_to_clause(pool, &conclusion),
-        rule: "resolution".to_owned(),
-        premises: premises.iter().map(|p| p.node.clone()).collect(),
-        args,
-        discharge: Vec::new(),
-        previous_step: None,
-    }));
+    let resolution_step = match premises {
+        [p] => p.node.clone(),
+        _ => Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth,
+            clause: literals_to_clause(pool, &conclusion),
+            rule: "resolution".to_owned(),
+            premises: premises.iter().map(|p| p.node.clone()).collect(),
+            args,
+            discharge: Vec::new(),
+            previous_step: None,
+        })),
+    };
 
     if resolution_step.clause() == final_target {
         return (resolution_step, conclusion);
@@ -236,7 +244,19 @@ fn find_crowding_literals<'a>(
         .for_each(|lit| literals.get_mut(lit).unwrap().is_crowding = true);
 
     for (i, p) in premises.iter().enumerate() {
-        for lit in &p.clause {
+        // The literal that this premise eliminates is not included by it
+        let eliminated = p.pivot.and_then(|(pivot, polarity)| {
+            let pivot_in_next = if polarity {
+                (pivot.0 + 1, pivot.1)
+            } else {
+                pivot
+            };
+            p.clause.iter().position(|lit| *lit == pivot_in_next)
+        });
+        for (j, lit) in p.clause.iter().enumerate() {
+            if Some(j) == eliminated {
+                continue;
+            }
             if let Some(info) = literals.get_mut(lit) {
                 info.last_inclusion = i;
             }
-- 
2.43.0


From 9c9ed563357c2ee45905ba0abc5dfe603c032fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 56/81] fix: only elaborate resolution steps with pivots that
 result in the conclusion

---
 carcara/src/elaborator/resolution.rs | 148 +++++++++++++++++++++++++--
 1 file changed, 142 insertions(+), 6 deletions(-)

diff --git a/carcara/src/elaborator/resolution.rs b/carcara/src/elaborator/resolution.rs
index bccf76f..a0648ee 100644
--- a/carcara/src/elaborator/resolution.rs
+++ b/carcara/src/elaborator/resolution.rs
@@ -1,5 +1,95 @@
 use super::*;
 use crate::{ast::*, checker::error::CheckerError, resolution::*, utils::DedupIterator};
+use indexmap::IndexSet;
+
+/// Computes the literals that result from resolving the premises with the given pivots, in order.
+fn resolution_result<'a>(
+    premises: &'a [Rc<ProofNode>],
+    pivots: &'a [(Rc<Term>, bool)],
+) -> Option<IndexSet<Literal<'a>>> {
+    if premises.len() != pivots.len() + 1 {
+        return None;
+    }
+    let literals = |node: &'a Rc<ProofNode>| node.clause().iter().map(Rc::remove_all_negations);
+
+    let mut current: IndexSet<_> = literals(&premises[0]).collect();
+    for (premise, (pivot, polarity)) in premises[1..].iter().zip(pivots) {
+        let pivot = pivot.remove_all_negations();
+        let negated_pivot = (pivot.0 + 1, pivot.1);
+        let (pivot_in_current, pivot_in_next) = if *polarity {
+            (pivot, negated_pivot)
+        } else {
+            (negated_pivot, pivot)
+        };
+        if !current.swap_remove(&pivot_in_current) {
+            return None;
+        }
+        let eliminated = literals(premise).position(|l| l == pivot_in_next)?;
+        current.extend(
+            literals(premise)
+                .enumerate()
+                .filter(|(i, _)| *i != eliminated)
+                .map(|(_, l)| l),
+        );
+    }
+    Some(current)
+}
+
+/// Searches for pivots with which the premises, in order, resolve to the conclusion.
+fn search_pivots(
+    pool: &mut PrimitivePool,
+    premises: &[Rc<ProofNode>],
+    conclusion: &[Rc<Term>],
+) -> Option<Vec<(Rc<Term>, bool)>> {
+    fn search<'a>(
+        current: &IndexSet<Literal<'a>>,
+        premises: &'a [Rc<ProofNode>],
+        expected: &IndexSet<Literal<'a>>,
+        attempts: &mut usize,
+    ) -> Option<Vec<(Literal<'a>, bool)>> {
+        let Some((next, rest)) = premises.split_first() else {
+            return (current == expected).then(Vec::new);
+        };
+        for (i, term) in next.clause().iter().enumerate() {
+            let (n, inner) = term.remove_all_negations();
+            let below = n.checked_sub(1).map(|n| ((n, inner), true));
+            let above = ((n + 1, inner), false);
+            for (in_current, polarity) in below.into_iter().chain([above]) {
+                if !current.contains(&in_current) {
+                    continue;
+                }
+                *attempts = attempts.checked_sub(1)?;
+                let mut result = current.clone();
+                result.swap_remove(&in_current);
+                let others = next.clause().iter().enumerate().filter(|(j, _)| *j != i);
+                result.extend(others.map(|(_, t)| t.remove_all_negations()));
+
+                if let Some(mut pivots) = search(&result, rest, expected, attempts) {
+                    let pivot = if polarity { in_current } else { (n, inner) };
+                    pivots.push((pivot, polarity));
+                    return Some(pivots);
+                }
+            }
+        }
+        None
+    }
+
+    let mut attempts = 1000;
+    let (first, rest) = premises.split_first()?;
+    let first = first
+        .clause()
+        .iter()
+        .map(Rc::remove_all_negations)
+        .collect();
+    let expected = conclusion.iter().map(Rc::remove_all_negations).collect();
+    let pivots = search(&first, rest, &expected, &mut attempts)?;
+    let pivots = pivots.into_iter().rev();
+    Some(
+        pivots
+            .map(|(pivot, polarity)| (literal_to_term(pool, pivot), polarity))
+            .collect(),
+    )
+}
 
 pub fn resolution(
     pool: &mut PrimitivePool,
@@ -54,12 +144,59 @@ pub fn resolution(
     let mut premises: Vec<_> = step.premises.iter().dedup().cloned().collect();
     let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
 
-    let ResolutionTrace { not_not_added, pivot_trace } =
-        greedy_resolution(&step.clause, &premise_clauses, pool, true).or_else(|_| {
+    let trace = greedy_resolution(&step.clause, &premise_clauses, pool, true).or_else(|_| {
+        premises.reverse();
+        let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
+        greedy_resolution(&step.clause, &premise_clauses, pool, true)
+    });
+
+    // The greedy algorithm may also record eliminations that are not resolution steps between
+    // consecutive premises, so we make sure that the pivots found do result in the conclusion
+    let (mut not_not_added, mut false_added) = (false, false);
+    let mut pivot_trace = trace.ok().and_then(|trace| {
+        let result = resolution_result(&premises, &trace.pivot_trace)?;
+        if trace.not_not_added {
+            let [conclusion] = step.clause.as_slice() else {
+                return None;
+            };
+            let (n, inner) = conclusion.remove_all_negations();
+            not_not_added = n >= 2 && result.len() == 1 && result.contains(&(n - 2, inner));
+            return not_not_added.then_some(trace.pivot_trace);
+        }
+        let expected: IndexSet<_> = step.clause.iter().map(Rc::remove_all_negations).collect();
+        let bool_false = pool.bool_false();
+        false_added =
+            expected.is_empty() && result.len() == 1 && result.contains(&(0, &bool_false));
+        (result == expected || false_added).then_some(trace.pivot_trace)
+    });
+
+    if pivot_trace.is_none() {
+        premises = step.premises.iter().dedup().cloned().collect();
+        pivot_trace = search_pivots(pool, &premises, &step.clause).or_else(|| {
             premises.reverse();
-            let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
-            greedy_resolution(&step.clause, &premise_clauses, pool, true)
-        })?;
+            search_pivots(pool, &premises, &step.clause)
+        });
+    }
+
+    // The checker also accepts steps whose pivots we can't determine. In that case, there is
+    // nothing we can elaborate
+    let Some(mut pivot_trace) = pivot_trace else {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    };
+
+    if false_added {
+        // In this case, the term `false` was implicitly eliminated, so we add a premise that
+        // eliminates it explicitly
+        let bool_false = pool.bool_false();
+        premises.push(Rc::new(ProofNode::Step(StepNode {
+            id: ids.next_id(),
+            depth: step.depth,
+            clause: vec![build_term!(pool, (not {bool_false.clone()}))],
+            rule: "false".to_owned(),
+            ..Default::default()
+        })));
+        pivot_trace.push((bool_false, true));
+    }
 
     let pivots = pivot_trace
         .into_iter()
@@ -96,7 +233,6 @@ pub fn resolution(
         //     :args (c true (not (not (not (not c)))) true))
         // ```
 
-        assert!(resolution_step.clause.len() == 1);
         let original_conclusion = resolution_step.clause;
         let double_not_c = original_conclusion[0].clone();
         let single_not_c = double_not_c.remove_negation().unwrap().clone();
-- 
2.43.0


From daf9c85e9d2964bdac86f2676f8d739c1a43beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 57/81] fix: keep at least two premises in elaborated
 eq_transitive steps

---
 carcara/src/elaborator/transitivity.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/carcara/src/elaborator/transitivity.rs b/carcara/src/elaborator/transitivity.rs
index 8f9579b..a0fdb1e 100644
--- a/carcara/src/elaborator/transitivity.rs
+++ b/carcara/src/elaborator/transitivity.rs
@@ -94,7 +94,9 @@ pub fn eq_transitive(
     step: &StepNode,
 ) -> Result<Rc<ProofNode>, CheckerError> {
     let n = step.clause.len();
-    assert!(n > 2);
+    if n < 3 {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
 
     // The last term in the conclusion clause should be an equality, and it will be the conclusion
     // of the transitive chain
@@ -114,6 +116,9 @@ pub fn eq_transitive(
         &mut new_clause[..n - 1],
     )?;
 
+    // An `eq_transitive` step must have at least two premises, even if they are not all needed
+    let num_needed = num_needed.max(2);
+
     if !needs_reordering && num_needed == n - 1 && should_flip.is_empty() {
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
-- 
2.43.0


From 9a06b768547e4904c02a41927475aa9377ae374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 58/81] fix: leave steps unchanged instead of panicking when a
 polyequality can't be elaborated

---
 carcara/src/elaborator/clausification.rs |   2 +-
 carcara/src/elaborator/mod.rs            |  48 +++----
 carcara/src/elaborator/polyeq.rs         | 161 +++++++++++++----------
 carcara/src/elaborator/quantifiers.rs    |   2 +-
 carcara/src/elaborator/reflexivity.rs    |  10 +-
 carcara/src/elaborator/subproof.rs       |   6 +-
 carcara/src/elaborator/tautology.rs      |  12 +-
 7 files changed, 129 insertions(+), 112 deletions(-)

diff --git a/carcara/src/elaborator/clausification.rs b/carcara/src/elaborator/clausification.rs
index 85043cc..5f5565f 100644
--- a/carcara/src/elaborator/clausification.rs
+++ b/carcara/src/elaborator/clausification.rs
@@ -25,7 +25,7 @@ pub fn bfun_elim(
         pool,
         expected.clone(),
         got.clone(),
-    );
+    )?;
     let equiv1_step = Rc::new(ProofNode::Step(StepNode {
         id: ids.next_id(),
         depth: step.depth,
diff --git a/carcara/src/elaborator/mod.rs b/carcara/src/elaborator/mod.rs
index e2e8eed..773c1ba 100644
--- a/carcara/src/elaborator/mod.rs
+++ b/carcara/src/elaborator/mod.rs
@@ -155,22 +155,21 @@ impl<'e> Elaborator<'e> {
             })
         }
 
-        proof.mutate(|context, node, _| {
-            match node.as_ref() {
-                ProofNode::Assume { id, depth, term }
-                    if context.is_empty() && !self.problem.premises.contains(term) =>
-                {
-                    self.elaborate_assume(id, *depth, term)
-                }
-                ProofNode::Step(s) => {
-                    if let Some(func) = get_elaboration_function(&s.rule) {
-                        func(self.pool, context, s).unwrap() // TODO: add proper error handling
-                    } else {
-                        node.clone()
-                    }
+        proof.mutate(|context, node, _| match node.as_ref() {
+            ProofNode::Assume { id, depth, term }
+                if context.is_empty() && !self.problem.premises.contains(term) =>
+            {
+                self.elaborate_assume(id, *depth, term)
+                    .unwrap_or_else(|| node.clone())
+            }
+            ProofNode::Step(s) => {
+                if let Some(func) = get_elaboration_function(&s.rule) {
+                    func(self.pool, context, s).unwrap_or_else(|_| node.clone())
+                } else {
+                    node.clone()
                 }
-                _ => node.clone(),
             }
+            _ => node.clone(),
         })
     }
 
@@ -190,7 +189,7 @@ impl<'e> Elaborator<'e> {
             match node.as_ref() {
                 ProofNode::Step(s) => {
                     if let Some(func) = get_elaboration_function(&s.rule) {
-                        return func(self.pool, context, s).unwrap(); // TODO: add proper error handling
+                        return func(self.pool, context, s).unwrap_or_else(|_| node.clone());
                     }
                 }
                 ProofNode::Subproof(_) => unreachable!(),
@@ -200,7 +199,12 @@ impl<'e> Elaborator<'e> {
         })
     }
 
-    fn elaborate_assume(&mut self, id: &str, depth: usize, term: &Rc<Term>) -> Rc<ProofNode> {
+    fn elaborate_assume(
+        &mut self,
+        id: &str,
+        depth: usize,
+        term: &Rc<Term>,
+    ) -> Option<Rc<ProofNode>> {
         let mut found = None;
         for p in &self.problem.premises {
             if Polyeq::new()
@@ -221,11 +225,9 @@ impl<'e> Elaborator<'e> {
         });
 
         let mut ids = IdHelper::new(id);
-        let equality_step = PolyeqElaborator::new(&mut ids, depth, false).elaborate(
-            self.pool,
-            premise.clone(),
-            term.clone(),
-        );
+        let equality_step = PolyeqElaborator::new(&mut ids, depth, false)
+            .elaborate(self.pool, premise.clone(), term.clone())
+            .ok()?;
 
         let equiv1_step = Rc::new(ProofNode::Step(StepNode {
             id: ids.next_id(),
@@ -239,7 +241,7 @@ impl<'e> Elaborator<'e> {
             ..Default::default()
         }));
 
-        Rc::new(ProofNode::Step(StepNode {
+        Some(Rc::new(ProofNode::Step(StepNode {
             id: ids.next_id(),
             depth,
             clause: vec![term.clone()],
@@ -247,7 +249,7 @@ impl<'e> Elaborator<'e> {
             premises: vec![new_assume, equiv1_step],
             args: vec![premise, self.pool.bool_true()],
             ..Default::default()
-        }))
+        })))
     }
 }
 
diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index f4885d9..985ebd1 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -1,6 +1,7 @@
 use super::*;
 use crate::{
     ast::*,
+    checker::error::{CheckerError, EqualityError},
     utils::{DedupIterator, HashMapStack},
 };
 
@@ -32,16 +33,16 @@ impl<'a> PolyeqElaborator<'a> {
         pool: &mut PrimitivePool,
         a: Rc<Term>,
         b: Rc<Term>,
-    ) -> Rc<ProofNode> {
+    ) -> Result<Rc<ProofNode>, CheckerError> {
         let key = (a, b);
         if let Some(p) = self.cache.get(&key) {
-            return p.clone();
+            return Ok(p.clone());
         }
         // We have to do this to avoid moving `a` and `b` when calling `self.cache.get`
         let (a, b) = key.clone();
-        let result = self.elaborate_impl(pool, a, b);
+        let result = self.elaborate_impl(pool, a, b)?;
         self.cache.insert(key, result.clone());
-        result
+        Ok(result)
     }
 
     fn elaborate_impl(
@@ -49,11 +50,13 @@ impl<'a> PolyeqElaborator<'a> {
         pool: &mut PrimitivePool,
         a: Rc<Term>,
         b: Rc<Term>,
-    ) -> Rc<ProofNode> {
+    ) -> Result<Rc<ProofNode>, CheckerError> {
         if self.directly_eq(pool, &a, &b) {
             let id = self.ids.next_id();
-            return add_refl_step(pool, a, b, id, self.depth());
+            return Ok(add_refl_step(pool, a, b, id, self.depth()));
         }
+        // The terms may be equal in a way that we don't know how to elaborate
+        let unsupported = EqualityError::ExpectedEqual(a.clone(), b.clone()).into();
 
         if let Some((a_left, a_right)) = match_term!((= x y) = a) {
             if let Some((b_left, b_right)) = match_term!((= x y) = b) {
@@ -67,22 +70,22 @@ impl<'a> PolyeqElaborator<'a> {
 
         match (a.as_ref(), b.as_ref()) {
             (Term::App(a_func, a_args), Term::App(b_func, b_args)) => {
-                assert_eq!(a_func, b_func);
-                assert_eq!(a_args.len(), b_args.len());
+                if a_func != b_func || a_args.len() != b_args.len() {
+                    return Err(unsupported);
+                }
                 self.build_cong(pool, (&a, &b), (a_args, b_args))
             }
             (Term::Op(a_op, a_args), Term::Op(b_op, b_args)) => {
                 if a_op != b_op {
-                    todo!("elaborate chainable nary")
+                    // TODO: elaborate chainable nary
+                    Err(unsupported)
                 } else if a_args.len() != b_args.len() {
-                    let (nary, binary) = if a_args.len() == 2 {
-                        assert!(b_args.len() > 2);
+                    let (nary, binary) = if a_args.len() == 2 && b_args.len() > 2 {
                         (b_args, &a)
-                    } else if b_args.len() == 2 {
-                        assert!(a_args.len() > 2);
+                    } else if b_args.len() == 2 && a_args.len() > 2 {
                         (a_args, &b)
                     } else {
-                        panic!("invalid associative nary case")
+                        return Err(unsupported);
                     };
                     self.elaborate_assoc(pool, *a_op, nary, binary)
                 } else {
@@ -91,19 +94,23 @@ impl<'a> PolyeqElaborator<'a> {
             }
 
             // Since `choice` and `lambda` terms are not in the SMT-LIB standard, they cannot appear
-            // in the premises of a proof, so we would never need to elaborate polyequalities that
-            // use these terms.
+            // in the premises of a proof, so we don't elaborate polyequalities that use these
+            // terms.
             (Term::Binder(b @ (Binder::Choice | Binder::Lambda), _, _), _)
             | (_, Term::Binder(b @ (Binder::Choice | Binder::Lambda), _, _)) => {
                 log::error!("Trying to elaborate polyequality between `{b}` terms");
-                panic!()
+                Err(unsupported)
             }
             (Term::Binder(a_q, a_bindings, a_inner), Term::Binder(b_q, b_bindings, b_inner)) => {
-                assert_eq!(a_q, b_q);
+                if a_q != b_q {
+                    return Err(unsupported);
+                }
 
                 let args: Vec<_> = match &mut self.context {
                     None => {
-                        assert_eq!(a_bindings, b_bindings);
+                        if a_bindings != b_bindings {
+                            return Err(unsupported);
+                        }
 
                         let variable_args = a_bindings.iter().cloned().map(AnchorArg::Variable);
 
@@ -116,7 +123,9 @@ impl<'a> PolyeqElaborator<'a> {
                     }
                     Some(c) => {
                         let a_sorts = a_bindings.iter().map(|(_, sort)| sort);
-                        assert!(a_sorts.eq(b_bindings.iter().map(|(_, sort)| sort)));
+                        if !a_sorts.eq(b_bindings.iter().map(|(_, sort)| sort)) {
+                            return Err(unsupported);
+                        }
 
                         let variable_args = a_bindings
                             .iter()
@@ -140,7 +149,8 @@ impl<'a> PolyeqElaborator<'a> {
                 };
 
                 self.open_subproof();
-                let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()));
+                let previous =
+                    self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()))?;
 
                 if let Some(c) = &mut self.context {
                     c.pop();
@@ -153,11 +163,16 @@ impl<'a> PolyeqElaborator<'a> {
                     previous_step: Some(previous),
                     ..Default::default()
                 };
-                self.close_subproof(args, last_step, Vec::new())
+                Ok(self.close_subproof(args, last_step, Vec::new()))
             }
 
             (Term::Let(a_bindings, a_inner), Term::Let(b_bindings, b_inner)) => {
-                assert_eq!(a_bindings.len(), b_bindings.len());
+                let names = |bindings: &BindingList| -> Vec<_> {
+                    bindings.iter().map(|(name, _)| name.clone()).collect()
+                };
+                if names(a_bindings) != names(b_bindings) {
+                    return Err(unsupported);
+                }
 
                 let args: Vec<_> = a_bindings
                     .iter()
@@ -170,18 +185,13 @@ impl<'a> PolyeqElaborator<'a> {
                 let premises: Vec<_> = a_bindings
                     .iter()
                     .zip(b_bindings)
-                    .filter_map(|(a, b)| {
-                        assert_eq!(a.0, b.0);
-                        if a.1 == b.1 {
-                            None
-                        } else {
-                            Some(self.elaborate(pool, a.1.clone(), b.1.clone()))
-                        }
-                    })
-                    .collect();
+                    .filter(|(a, b)| a.1 != b.1)
+                    .map(|(a, b)| self.elaborate(pool, a.1.clone(), b.1.clone()))
+                    .collect::<Result<_, _>>()?;
 
                 self.open_subproof();
-                let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()));
+                let previous =
+                    self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()))?;
                 let last_step = StepNode {
                     id: String::new(), // this will be overwritten later
                     depth: self.depth(),
@@ -194,16 +204,16 @@ impl<'a> PolyeqElaborator<'a> {
                 };
                 // The premises to the `bind_let` step are outbound, so we need to pass them to
                 // `close_subproof`
-                self.close_subproof(args, last_step, premises)
+                Ok(self.close_subproof(args, last_step, premises))
             }
             // If one of the terms is a constant, but they are still polyequal, we can't break it up
             // into smaller parts, so we just use a direct refl step. This is hack to deal with the
             // case where one of the terms was passed as a GMP-style constant.
             _ if (a.is_const() || b.is_const()) && self.polyeq(pool, &a, &b) => {
                 let id = self.ids.next_id();
-                add_refl_step(pool, a, b, id, self.depth())
+                Ok(add_refl_step(pool, a, b, id, self.depth()))
             }
-            _ => panic!("terms not equal!"),
+            _ => Err(unsupported),
         }
     }
 
@@ -233,28 +243,23 @@ impl<'a> PolyeqElaborator<'a> {
         pool: &mut PrimitivePool,
         (a, b): (&Rc<Term>, &Rc<Term>),
         (a_args, b_args): (&[Rc<Term>], &[Rc<Term>]),
-    ) -> Rc<ProofNode> {
+    ) -> Result<Rc<ProofNode>, CheckerError> {
         let clause = vec![build_term!(pool, (= {a.clone()} {b.clone()}))];
         let premises = a_args
             .iter()
             .zip(b_args)
-            .filter_map(|(a, b)| {
-                if a == b {
-                    None
-                } else {
-                    Some(self.elaborate(pool, a.clone(), b.clone()))
-                }
-            })
-            .collect();
+            .filter(|(a, b)| a != b)
+            .map(|(a, b)| self.elaborate(pool, a.clone(), b.clone()))
+            .collect::<Result<_, _>>()?;
 
-        Rc::new(ProofNode::Step(StepNode {
+        Ok(Rc::new(ProofNode::Step(StepNode {
             id: self.ids.next_id(),
             depth: self.depth(),
             clause,
             rule: "cong".to_owned(),
             premises,
             ..Default::default()
-        }))
+        })))
     }
 
     fn flip_equality(
@@ -262,7 +267,7 @@ impl<'a> PolyeqElaborator<'a> {
         pool: &mut PrimitivePool,
         (a, a_left, a_right): (Rc<Term>, Rc<Term>, Rc<Term>),
         (b, b_left, b_right): (Rc<Term>, Rc<Term>, Rc<Term>),
-    ) -> Rc<ProofNode> {
+    ) -> Result<Rc<ProofNode>, CheckerError> {
         // Let's define:
         //     a := (= x y)
         //     b := (= y' x')
@@ -299,13 +304,13 @@ impl<'a> PolyeqElaborator<'a> {
 
         // Simpler case
         if a_left == b_right && a_right == b_left {
-            return Rc::new(ProofNode::Step(StepNode {
+            return Ok(Rc::new(ProofNode::Step(StepNode {
                 id: self.ids.next_id(),
                 depth: self.depth(),
                 clause: vec![build_term!(pool, (= {a} {b}))],
                 rule: "eq_symmetric".to_owned(),
                 ..Default::default()
-            }));
+            })));
         }
 
         // To create the `cong` step that derives `(= (= x y) (= x' y'))`, we use the `build_cong`
@@ -316,7 +321,7 @@ impl<'a> PolyeqElaborator<'a> {
             pool,
             (&a, &flipped_b),
             (&[a_left, a_right], &[b_right, b_left]),
-        );
+        )?;
 
         let equiv_step = Rc::new(ProofNode::Step(StepNode {
             id: self.ids.next_id(),
@@ -326,7 +331,11 @@ impl<'a> PolyeqElaborator<'a> {
             ..Default::default()
         }));
 
-        add_trans_step(pool, [cong_step, equiv_step], self.ids.next_id())
+        Ok(add_trans_step(
+            pool,
+            [cong_step, equiv_step],
+            self.ids.next_id(),
+        ))
     }
 
     fn open_subproof(&mut self) {
@@ -360,26 +369,26 @@ impl<'a> PolyeqElaborator<'a> {
         &mut self,
         pool: &mut PrimitivePool,
         inner_equality: (Rc<Term>, Rc<Term>),
-    ) -> Rc<ProofNode> {
+    ) -> Result<Rc<ProofNode>, CheckerError> {
         let (a, b) = inner_equality;
 
-        let inner_eq = self.elaborate(pool, a.clone(), b.clone());
+        let inner_eq = self.elaborate(pool, a.clone(), b.clone())?;
 
         // The inner equality step may be skipped if it was already derived before. In this case,
         // the end step must have something to implicitly reference, so we must add a step that
         // copies that clause to inside the subproof. We do that with a dummy `reordering` step.
         if inner_eq.as_step().is_some_and(|s| s.depth == self.depth()) {
-            inner_eq
+            Ok(inner_eq)
         } else {
             let clause = vec![build_term!(pool, (= {a} {b}))];
-            Rc::new(ProofNode::Step(StepNode {
+            Ok(Rc::new(ProofNode::Step(StepNode {
                 id: self.ids.next_id(),
                 depth: self.depth(),
                 clause,
                 rule: "reordering".to_owned(),
                 premises: vec![inner_eq],
                 ..Default::default()
-            }))
+            })))
         }
     }
 
@@ -389,23 +398,26 @@ impl<'a> PolyeqElaborator<'a> {
         op: Operator,
         nary: &[Rc<Term>],
         binary: &Rc<Term>,
-    ) -> Rc<ProofNode> {
-        assert!(matches!(
+    ) -> Result<Rc<ProofNode>, CheckerError> {
+        if !matches!(
             op.nary_case(),
             Some(NaryCase::RightAssoc | NaryCase::LeftAssoc)
-        ));
+        ) {
+            let nary = pool.add(Term::Op(op, nary.to_vec()));
+            return Err(EqualityError::ExpectedEqual(nary, binary.clone()).into());
+        }
         let mut premises = Vec::new();
-        let mut normalized_args = self.get_assoc_premises(pool, &mut premises, op, nary, binary);
+        let mut normalized_args = self.get_assoc_premises(pool, &mut premises, op, nary, binary)?;
 
         if premises.is_empty() {
             let nary = pool.add(Term::Op(op, nary.to_vec()));
-            return Rc::new(ProofNode::Step(StepNode {
+            return Ok(Rc::new(ProofNode::Step(StepNode {
                 id: self.ids.next_id(),
                 depth: self.depth(),
                 clause: vec![build_term!(pool, (= {nary} {binary.clone()}))],
                 rule: "nary_elim".to_owned(),
                 ..Default::default()
-            }));
+            })));
         }
 
         if op.nary_case() == Some(NaryCase::RightAssoc) {
@@ -430,7 +442,11 @@ impl<'a> PolyeqElaborator<'a> {
             ..Default::default()
         }));
 
-        add_trans_step(pool, [cong_step, nary_elim_step], self.ids.next_id())
+        Ok(add_trans_step(
+            pool,
+            [cong_step, nary_elim_step],
+            self.ids.next_id(),
+        ))
     }
 
     fn get_assoc_premises(
@@ -440,15 +456,15 @@ impl<'a> PolyeqElaborator<'a> {
         op: Operator,
         nary: &[Rc<Term>],
         binary: &Rc<Term>,
-    ) -> Vec<Rc<Term>> {
+    ) -> Result<Vec<Rc<Term>>, CheckerError> {
         let is_right = op.nary_case() == Some(NaryCase::RightAssoc);
         let (nary_head, nary_tail) = match nary {
             [] => panic!("invalid associative nary case"),
             [single] => {
                 if single != binary {
-                    premises.push(self.elaborate(pool, single.clone(), binary.clone()));
+                    premises.push(self.elaborate(pool, single.clone(), binary.clone())?);
                 }
-                return vec![binary.clone()];
+                return Ok(vec![binary.clone()]);
             }
             [first, rest @ ..] if is_right => (first, rest),
             [rest @ .., last] => (last, rest),
@@ -462,15 +478,18 @@ impl<'a> PolyeqElaborator<'a> {
                     (r, l)
                 }
             }
-            _ => panic!("invalid associative nary case"),
+            _ => {
+                let nary = pool.add(Term::Op(op, nary.to_vec()));
+                return Err(EqualityError::ExpectedEqual(nary, binary.clone()).into());
+            }
         };
 
         if nary_head != binary_head {
-            premises.push(self.elaborate(pool, nary_head.clone(), binary_head.clone()));
+            premises.push(self.elaborate(pool, nary_head.clone(), binary_head.clone())?);
         }
 
-        let mut args = self.get_assoc_premises(pool, premises, op, nary_tail, binary_tail);
+        let mut args = self.get_assoc_premises(pool, premises, op, nary_tail, binary_tail)?;
         args.push(binary_head.clone());
-        args
+        Ok(args)
     }
 }
diff --git a/carcara/src/elaborator/quantifiers.rs b/carcara/src/elaborator/quantifiers.rs
index 75f6e14..3be3cb3 100644
--- a/carcara/src/elaborator/quantifiers.rs
+++ b/carcara/src/elaborator/quantifiers.rs
@@ -58,7 +58,7 @@ pub fn forall_inst(
             pool,
             p.clone(),
             p_prime.clone(),
-        )
+        )?
     };
 
     let or_term = build_term!(pool, (or (not {quantified.clone()}) {p.clone()}));
diff --git a/carcara/src/elaborator/reflexivity.rs b/carcara/src/elaborator/reflexivity.rs
index 05a08fc..b632694 100644
--- a/carcara/src/elaborator/reflexivity.rs
+++ b/carcara/src/elaborator/reflexivity.rs
@@ -18,7 +18,7 @@ fn elaborate_equality(
     r: &Rc<Term>,
     ids: &mut IdHelper,
     depth: usize,
-) -> Rc<ProofNode> {
+) -> Result<Rc<ProofNode>, CheckerError> {
     let is_alpha_equivalence = !polyeq(l, r);
     PolyeqElaborator::new(ids, depth, is_alpha_equivalence).elaborate(pool, l.clone(), r.clone())
 }
@@ -80,22 +80,22 @@ pub fn refl(
     // cases
     if alpha_equiv(left, right) {
         // First, the case where no context application is needed, only polyequality reasoning
-        Ok(elaborate_equality(pool, left, right, &mut ids, depth))
+        elaborate_equality(pool, left, right, &mut ids, depth)
     } else if alpha_equiv(&new_left, right) {
         // Next, the one where we only need to apply the context on the left
         let left_refl = add_refl_step(pool, left.clone(), new_left.clone(), ids.next_id(), depth);
-        let polyeq = elaborate_equality(pool, &new_left, right, &mut ids, depth);
+        let polyeq = elaborate_equality(pool, &new_left, right, &mut ids, depth)?;
         Ok(add_trans_step(pool, [left_refl, polyeq], step.id.clone()))
     } else if alpha_equiv(left, &new_right) {
         // Next, when we need to apply the context on the right
-        let polyeq = elaborate_equality(pool, left, &new_right, &mut ids, depth);
+        let polyeq = elaborate_equality(pool, left, &new_right, &mut ids, depth)?;
         let right_refl = add_refl_step(pool, right.clone(), new_right, ids.next_id(), depth);
         let right_symm = add_symm_step(pool, &right_refl, ids.next_id());
         Ok(add_trans_step(pool, [polyeq, right_symm], step.id.clone()))
     } else if alpha_equiv(&new_left, &new_right) {
         // And finally, the case where we need to apply it to both sides
         let left_refl = add_refl_step(pool, left.clone(), new_left.clone(), ids.next_id(), depth);
-        let polyeq = elaborate_equality(pool, &new_left, &new_right, &mut ids, depth);
+        let polyeq = elaborate_equality(pool, &new_left, &new_right, &mut ids, depth)?;
         let right_refl = add_refl_step(pool, right.clone(), new_right, ids.next_id(), depth);
         let right_symm = add_symm_step(pool, &right_refl, ids.next_id());
         Ok(add_trans_step(
diff --git a/carcara/src/elaborator/subproof.rs b/carcara/src/elaborator/subproof.rs
index 6610d20..f6cc060 100644
--- a/carcara/src/elaborator/subproof.rs
+++ b/carcara/src/elaborator/subproof.rs
@@ -8,9 +8,7 @@ pub fn subproof(
 ) -> Result<Rc<ProofNode>, CheckerError> {
     let unchanged = || Ok(Rc::new(ProofNode::Step(step.clone())));
 
-    let previous_step = &step.previous_step.as_ref().unwrap().as_step().unwrap();
-
-    let [previous] = previous_step.clause.as_slice() else {
+    let Some([previous]) = step.previous_step.as_ref().map(|p| p.clause()) else {
         return unchanged();
     };
     let last_term = step.clause.last().unwrap();
@@ -23,7 +21,7 @@ pub fn subproof(
         pool,
         previous.clone(),
         last_term.clone(),
-    );
+    )?;
     let equiv1_step = Rc::new(ProofNode::Step(StepNode {
         id: ids.next_id(),
         depth: step.depth,
diff --git a/carcara/src/elaborator/tautology.rs b/carcara/src/elaborator/tautology.rs
index 41f4f97..f1c8060 100644
--- a/carcara/src/elaborator/tautology.rs
+++ b/carcara/src/elaborator/tautology.rs
@@ -12,12 +12,10 @@ pub fn ite_intro(
     let (root_term, right_side) = match_term_err!((= t u) = &step.clause[0])?;
 
     if polyeq.eq(root_term, right_side) {
-        return Ok(
-            PolyeqElaborator::new(&mut ids, step.depth, false).elaborate(
-                pool,
-                root_term.clone(),
-                right_side.clone(),
-            ),
+        return PolyeqElaborator::new(&mut ids, step.depth, false).elaborate(
+            pool,
+            root_term.clone(),
+            right_side.clone(),
         );
     }
 
@@ -72,7 +70,7 @@ pub fn ite_intro(
         pool,
         fixed_right_side.clone(),
         right_side.clone(),
-    );
+    )?;
     let trans_step = add_trans_step(pool, [new_ite_intro_step, polyeq_step], step.id.clone());
     Ok(trans_step)
 }
-- 
2.43.0


From e322084bcd68f7104387dc17b4c81a413851d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 59/81] fix: remap discharged assumptions and keep the premises
 of enclosing last steps in slices

Slicing only kept the leading assumptions of enclosing subproofs and the leading
top level assumptions became assertions, discharge indices were copied unchanged
from the original proof, and the premises of the last step of an enclosing
subproof were looked up without having been kept, which panics.
---
 carcara/src/slice.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 31f46bf..2b9104b 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -150,8 +150,6 @@ fn get_slice_body(
                 for command in &sp.commands {
                     if command.is_assume() {
                         to_keep.insert(command.id().to_owned(), false);
-                    } else {
-                        break;
                     }
                 }
                 // Get second to last step
@@ -163,6 +161,9 @@ fn get_slice_body(
                 // Get last step
                 let ult = &sp.commands[sp.commands.len() - 1];
                 to_keep.insert(ult.id().to_owned(), true); // We always need the "premises" of the last step of a subproof
+                for (premise, _) in id_to_premise_ids.get(ult.id()).into_iter().flatten() {
+                    to_keep.entry(premise.clone()).or_insert(false);
+                }
             }
         }
     };
@@ -211,19 +212,16 @@ fn get_slice_body(
                     };
 
                     let step = if need_premises {
-                        let (premises, discharge) =
-                            if let Some(premise_ids) = id_to_premise_ids.get(command.id()) {
-                                (
-                                    premise_ids
-                                        .iter()
-                                        .filter(|(_, t)| matches!(t, PremiseType::Premise))
-                                        .map(|(s, _)| id_to_index[s])
-                                        .collect(),
-                                    proof_step.discharge.clone(),
-                                )
-                            } else {
-                                (Vec::new(), Vec::new())
-                            };
+                        let (mut premises, mut discharge) = (Vec::new(), Vec::new());
+                        for (id, premise_type) in
+                            id_to_premise_ids.get(command.id()).into_iter().flatten()
+                        {
+                            match premise_type {
+                                PremiseType::Premise => premises.push(id_to_index[id]),
+                                PremiseType::Discharge => discharge.push(id_to_index[id]),
+                                PremiseType::SubproofEnd => (),
+                            }
+                        }
 
                         ProofStep {
                             premises,
@@ -344,9 +342,8 @@ pub fn slice(
     let mut asserts = Vec::new();
 
     for command in &new_proof.commands {
-        match command {
-            ProofCommand::Assume { term, .. } => asserts.push(term.clone()),
-            _ => break,
+        if let ProofCommand::Assume { term, .. } = command {
+            asserts.push(term.clone());
         }
     }
 
-- 
2.43.0


From a94ee83c8539541ba7df97cb69e4e298cb97add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 60/81] fix: rewrite empty disjunctions to false and empty
 conjunctions to true in rare rules

An empty list spliced into an 'or' gave true and into an 'and' gave false, so
sound rules had false instances, for example (= (or false) true).
---
 carcara/src/rare/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/rare/mod.rs b/carcara/src/rare/mod.rs
index cc8fc2a..b9793ce 100644
--- a/carcara/src/rare/mod.rs
+++ b/carcara/src/rare/mod.rs
@@ -9,8 +9,8 @@ pub fn get_rules() -> Vec<(RewriteTerm, RewriteTerm)> {
     vec![
         build_equation!((RareList ..x..) ~> x),
         build_equation!((Or true) ~> true),
-        build_equation!((Or) ~> true),
-        build_equation!((And) ~> false),
+        build_equation!((Or) ~> false),
+        build_equation!((And) ~> true),
         build_equation!((And false) ~> false),
     ]
 }
-- 
2.43.0


From 9176990b2c05d48256be6b05ae05349a97459333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 61/81] fix: check the list arguments of rare rules

A parameter that is not a list could be given a list if it was polymorphic, so
(= (= t t) true) had the instance (= (= p q p q) true), while the lists given to list
parameters that are not polymorphic were rejected because their sort is not that of
the elements. An argument that is not a parameter made the checker panic.
---
 carcara/src/ast/substitution.rs   | 10 ++++++++--
 carcara/src/checker/error.rs      |  3 +++
 carcara/src/checker/rules/rare.rs | 33 ++++++++++++++++++++++++-------
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 9b8382f..828a93c 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -81,11 +81,17 @@ impl Substitution {
             }
         }
 
-        Ok(Self {
+        Ok(Self::new_unchecked(map))
+    }
+
+    /// Constructs a new substitution from a mapping, without checking that variables are mapped to
+    /// terms of the same sort.
+    pub(crate) fn new_unchecked(map: IndexMap<Rc<Term>, Rc<Term>>) -> Self {
+        Self {
             map,
             should_be_renamed: None,
             cache: IndexMap::new(),
-        })
+        }
     }
 
     /// Returns `true` if the substitution is empty.
diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 8f47af2..8e7fd37 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -225,6 +225,9 @@ pub enum CheckerError {
     #[error("the argument {0} isn't a list")]
     RareArgumentIsNotRareList(String),
 
+    #[error("the argument {0} can't be a list")]
+    RareArgumentIsUnexpectedList(String),
+
     #[error("the premise {0} isn't equal to {1}")]
     RarePremiseAreNotEqual(Rc<Term>, Rc<Term>),
 
diff --git a/carcara/src/checker/rules/rare.rs b/carcara/src/checker/rules/rare.rs
index 0a48c6e..30569fc 100644
--- a/carcara/src/checker/rules/rare.rs
+++ b/carcara/src/checker/rules/rare.rs
@@ -1,7 +1,7 @@
 use indexmap::IndexMap;
 
 use crate::{
-    ast::{Constant, Substitution, Term},
+    ast::{rare_rules::AttributeParameters, Constant, Operator, Substitution, Term},
     checker::{error::CheckerError, rules::get_premise_term},
     rare::{get_rules, rewrite_meta_terms},
 };
@@ -40,11 +40,29 @@ pub fn check_rare(
         let mut map = IndexMap::new();
 
         for arg in rare_term.arguments.iter().rev() {
-            let arg_sort = rare_term.parameters.get(arg).unwrap();
-            map.insert(
-                pool.add(Term::Var(arg.clone(), arg_sort.term.clone())),
-                arguments.next().unwrap().clone(),
-            );
+            let Some(param) = rare_term.parameters.get(arg) else {
+                return Err(CheckerError::RareArgumentNotFound(arg.clone()));
+            };
+            let var = pool.add(Term::Var(arg.clone(), param.term.clone()));
+            let value = arguments.next().unwrap();
+
+            // Only a list parameter can be a list, and the sort of the parameter is that of the
+            // elements of the list
+            let elements = match value.as_ref() {
+                Term::Op(Operator::RareList, elements)
+                    if param.attribute == AttributeParameters::List =>
+                {
+                    elements.as_slice()
+                }
+                _ => std::slice::from_ref(value),
+            };
+            for element in elements {
+                if matches!(element.as_ref(), Term::Op(Operator::RareList, _)) {
+                    return Err(CheckerError::RareArgumentIsUnexpectedList(arg.clone()));
+                }
+                Substitution::new(pool, IndexMap::from([(var.clone(), element.clone())]))?;
+            }
+            map.insert(var, value.clone());
         }
 
         if rare_term.premises.len() != premises.len() {
@@ -54,7 +72,8 @@ pub fn check_rare(
         }
 
         let mut rare_premises = rare_term.premises.iter();
-        let mut subst = Substitution::new(pool, map.clone())?;
+        // The sorts were already checked above
+        let mut subst = Substitution::new_unchecked(map);
 
         for premise in premises {
             let premise = get_premise_term(premise)?;
-- 
2.43.0


From 7ab3b37e853997a0cf88415ac6ee2a846eb28d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 62/81] fix: only compute overlaps of constants in
 concat_cprop, and use the last component of the suffix

---
 carcara/src/checker/rules/strings.rs | 45 +++++++++++++++++++---------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 1bc6fbb..4e9cef1 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -58,6 +58,18 @@ fn concat_extract(term: Rc<Term>) -> Vec<Rc<Term>> {
     flattened
 }
 
+/// Flattens a string term that must be the concatenation of constants, returning its characters.
+fn constant_characters(
+    pool: &mut dyn TermPool,
+    term: &Rc<Term>,
+) -> Result<Vec<Rc<Term>>, CheckerError> {
+    let flattened = string_concat_flatten(pool, term.clone());
+    for c in &flattened {
+        string_check_length_one(c.clone())?;
+    }
+    Ok(flattened)
+}
+
 fn is_compatible(s: Vec<Rc<Term>>, t: Vec<Rc<Term>>) -> bool {
     match (&s[..], &t[..]) {
         (_, []) => true,
@@ -1051,12 +1063,14 @@ pub fn concat_cprop_prefix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let sc = string_concat_flatten(pool, ss[0].clone());
-    let sc_tail = sc[1..].to_vec();
-
-    let t_2_flat = string_concat_flatten(pool, args_t[1].clone());
+    // The overlap can only be computed if both terms are constants
+    let sc = constant_characters(pool, &ss[0])?;
+    let Some((_, sc_tail)) = sc.split_first() else {
+        return Err(CheckerError::ExpectedToNotBeEmpty(ss[0].clone()));
+    };
+    let t_2_flat = constant_characters(pool, &args_t[1])?;
 
-    let v = 1 + overlap(sc_tail.clone(), t_2_flat.clone());
+    let v = 1 + overlap(sc_tail.to_vec(), t_2_flat);
     let v = pool.add(Term::new_int(v));
     let oc = build_skolem_prefix(pool, ss[0].clone(), v);
     let oc_len = build_term!(pool, (strlen {oc.clone()}));
@@ -1097,16 +1111,22 @@ pub fn concat_cprop_suffix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let mut sc = string_concat_flatten(pool, ss[1].clone());
-    sc.reverse();
-    let sc_tail = &sc[1..];
+    let Some(last) = ss.last().cloned() else {
+        return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone()));
+    };
 
-    let mut t_2_flat = string_concat_flatten(pool, args_t[1].clone());
+    // The overlap can only be computed if both terms are constants
+    let mut sc = constant_characters(pool, &last)?;
+    sc.reverse();
+    let Some((_, sc_tail)) = sc.split_first() else {
+        return Err(CheckerError::ExpectedToNotBeEmpty(last));
+    };
+    let mut t_2_flat = constant_characters(pool, &args_t[1])?;
     t_2_flat.reverse();
 
-    let v = 1 + overlap(sc_tail.to_vec(), t_2_flat.clone());
+    let v = 1 + overlap(sc_tail.to_vec(), t_2_flat);
     let v = pool.add(Term::new_int(v));
-    let oc = build_str_suffix_len(pool, ss[1].clone(), v);
+    let oc = build_str_suffix_len(pool, last, v);
 
     let rhs = build_term!(pool, (- (strlen {t_2.clone()}) (strlen {oc.clone()})));
     let r = build_skolem_prefix(pool, t_2.clone(), rhs.clone());
@@ -1323,9 +1343,6 @@ pub fn re_concat_unfold_pos(RuleArgs { premises, conclusion, pool, .. }: RuleArg
         _ => Err(CheckerError::TermOfWrongForm("(re.++ ...)", r.clone())),
     }?;
 
-    println!("concluded: {}", &conclusion[0]);
-    println!("epxanded: {}", &expanded);
-
     assert_eq(&conclusion[0], &expanded)
 }
 
-- 
2.43.0


From d45f8b539115b17ebeda464d91b9ee01ef71be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 63/81] fix: require the length in string_decompose to be
 non-negative

---
 carcara/src/checker/error.rs         |  3 +++
 carcara/src/checker/rules/strings.rs | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 8e7fd37..c48b5e3 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -175,6 +175,9 @@ pub enum CheckerError {
     #[error("expected term {0} to be a suffix of {1}")]
     ExpectedToBeSuffix(Rc<Term>, Rc<Term>),
 
+    #[error("expected term '{0}' to be a non-negative integer")]
+    ExpectedNonNegativeInteger(Rc<Term>),
+
     #[error("expected term {0} to not be empty")]
     ExpectedToNotBeEmpty(Rc<Term>),
 
diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 4e9cef1..ed19a30 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1138,6 +1138,17 @@ pub fn concat_cprop_suffix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
     assert_eq(&expected, &expanded)
 }
 
+/// Returns `true` if the integer term `n` is clearly not negative in any model: it is a non-negative
+/// constant, the length of a string, or a sum or product of such terms.
+fn is_non_negative(n: &Rc<Term>) -> bool {
+    match n.as_ref() {
+        Term::Const(Constant::Integer(i)) => !i.is_negative(),
+        Term::Op(Operator::StrLen, _) => true,
+        Term::Op(Operator::Add | Operator::Mult, args) => args.iter().all(is_non_negative),
+        _ => false,
+    }
+}
+
 pub fn string_decompose(
     RuleArgs {
         premises,
@@ -1156,6 +1167,11 @@ pub fn string_decompose(
     let rev = args[0].as_bool_err()?;
     let (t, n) = match_term_err!((>= (strlen t) n) = term)?;
 
+    // If `n` is negative, the premise holds, but no string has length `n`
+    if !is_non_negative(n) {
+        return Err(CheckerError::ExpectedNonNegativeInteger(n.clone()));
+    }
+
     match_term_err!(
         (and
             (= t x)
-- 
2.43.0


From 984500a5e3861e5eebcee36ca63b46738508c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 64/81] fix: reject re_unfold_neg steps in which the bound
 variable captures a free one

---
 carcara/src/checker/error.rs         | 3 +++
 carcara/src/checker/rules/strings.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index c48b5e3..f269dcd 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -86,6 +86,9 @@ pub enum CheckerError {
     #[error("cannot apply the re_unfold_pos rule to the regular expression term '{0}'")]
     CannotApplyReUnfoldPos(Rc<Term>),
 
+    #[error("the bound variable of re_unfold_neg would capture a free variable of the term '{0}'")]
+    CannotApplyReUnfoldNeg(Rc<Term>),
+
     #[error(
         "cannot apply the re_unfold_pos_component method with the term '{0}' (not a concatenation)"
     )]
diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index ed19a30..5d61fd0 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1371,6 +1371,10 @@ pub fn re_unfold_neg(RuleArgs { premises, conclusion, pool, .. }: RuleArgs) -> R
 
     let int_sort = pool.add(Term::Sort(Sort::Int));
     let l = pool.add(Term::new_var("L", int_sort.clone()));
+    if pool.free_vars(term).contains(&l) {
+        // The quantifier in the conclusion would capture this variable
+        return Err(CheckerError::CannotApplyReUnfoldNeg(term.clone()));
+    }
     let pref = build_skolem_prefix(pool, t.clone(), l.clone());
     let suff = build_skolem_suffix_rem(pool, t.clone(), l.clone());
 
-- 
2.43.0


From 85dc943d805787bb49b6d5022d9ab4fcc958bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 65/81] fix: count characters instead of bytes in the string
 rules

---
 carcara/src/checker/rules/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 5d61fd0..867edc3 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -297,7 +297,7 @@ fn strip_prefix_or_suffix(
 /// constant of size one.
 fn string_check_length_one(term: Rc<Term>) -> Result<(), CheckerError> {
     if let Term::Const(Constant::String(s)) = term.as_ref() {
-        if s.len() == 1 {
+        if s.chars().count() == 1 {
             return Ok(());
         }
     }
@@ -564,7 +564,7 @@ fn str_fixed_len_re(pool: &mut dyn TermPool, r: Rc<Term>) -> Result<usize, Check
         Term::Op(Operator::StrToRe, args) => {
             let s_1 = args.first().unwrap();
             match s_1.as_ref() {
-                Term::Const(Constant::String(s)) => Ok(s.len()),
+                Term::Const(Constant::String(s)) => Ok(s.chars().count()),
                 _ => Err(CheckerError::LengthCannotBeEvaluated(r.clone())),
             }
         }
-- 
2.43.0


From b007ae67511b34ba55fc90cf3581543a185891b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 66/81] fix: expand string constants inside the components of
 concatenations

---
 carcara/src/checker/rules/strings.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 867edc3..2afe25c 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -123,7 +123,9 @@ fn expand_string_constants(pool: &mut dyn TermPool, term: &Rc<Term>) -> Rc<Term>
                 let mut new_args = Vec::new();
                 // (str.++ "a" (str.++ "b" "c")) => (str.++ "a" "b" "c")
                 for arg in args {
-                    new_args.extend(string_concat_flatten(pool, arg.clone()));
+                    for component in string_concat_flatten(pool, arg.clone()) {
+                        new_args.push(expand_string_constants(pool, &component));
+                    }
                 }
                 pool.add(Term::Op(*op, new_args))
             }
@@ -606,6 +608,7 @@ pub fn concat_eq(
         (= {ss_concat.clone()} {ts_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -642,6 +645,7 @@ pub fn concat_unify(
         (= {s_concat.clone()} {t_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -737,6 +741,7 @@ pub fn concat_csplit_prefix(
         (= {t_1.clone()} {right_eq_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -785,6 +790,7 @@ pub fn concat_csplit_suffix(
         (= {t_2.clone()} {right_eq_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
-- 
2.43.0


From 21bd1fe4819fc48370ac42dca1bf0040fbc86381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 67/81] fix: use the default stack size for workers if none is
 given

---
 carcara/src/checker/parallel/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 7d612bb..39d5f6b 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -68,6 +68,16 @@ impl<'c> ParallelProofChecker<'c> {
         }
     }
 
+    /// Returns the builder for the `i`-th worker thread. If no stack size was given, the default
+    /// size for threads is used.
+    fn worker_builder(&self, i: usize) -> thread::Builder {
+        let builder = thread::Builder::new().name(format!("worker-{i}"));
+        match self.stack_size {
+            0 => builder,
+            size => builder.stack_size(size),
+        }
+    }
+
     pub fn check(
         &mut self,
         problem: &Problem,
@@ -92,9 +102,7 @@ impl<'c> ParallelProofChecker<'c> {
                     #[cfg(carcara_mc)]
                     let token = crate::sync::hooks::token();
 
-                    thread::Builder::new()
-                        .name(format!("worker-{i}"))
-                        .stack_size(self.stack_size)
+                    self.worker_builder(i)
                         .spawn_scoped(s, move || -> CarcaraResult<(bool, bool)> {
                             #[cfg(carcara_mc)]
                             let _worker = crate::sync::hooks::Worker::enter(token, i);
@@ -176,9 +184,7 @@ impl<'c> ParallelProofChecker<'c> {
                     #[cfg(carcara_mc)]
                     let token = crate::sync::hooks::token();
 
-                    thread::Builder::new()
-                        .name(format!("worker-{i}"))
-                        .stack_size(self.stack_size)
+                    self.worker_builder(i)
                         .spawn_scoped(
                             s,
                             move || -> CarcaraResult<(bool, bool, CheckerStatistics<CR>)> {
-- 
2.43.0


From c3130b7a0e0911fe69cb96610ce35de49994fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 68/81] fix: write the sliced problem and proof to the files
 they were given

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index b878e5a..769cbd9 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -693,7 +693,7 @@ fn slice_command(
 
         // Write sliced problem and proof to provided paths or default locations.
         let (sliced_proof_file_name, sliced_problem_file_name) = match options.sliced_output {
-            Some(proof_prob) => (proof_prob[0].clone(), proof_prob[1].clone()),
+            Some(names) => (names[1].clone(), names[0].clone()),
             None => {
                 let path = Path::new(&options.input.proof_file);
                 let path_without_extension = path.with_extension("");
-- 
2.43.0


From 4438c687fe9b4d3ba7bf70b5570b11d70f0df465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 69/81] fix: keep benchmark results when a file can't be parsed

---
 cli/src/benchmarking.rs | 17 +++++++++--------
 cli/src/main.rs         |  9 ++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 231b2f4..f93b792 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -27,14 +27,6 @@ fn run_job<T: CollectResults + Default + Send>(
     elaborator_config: Option<(elaborator::Config, Vec<elaborator::ElaborationStep>)>,
 ) -> Result<bool, carcara::Error> {
     let proof_file_name = job.proof_file.to_str().unwrap();
-    let mut checker_stats = checker::CheckerStatistics {
-        file_name: proof_file_name,
-        polyeq_time: Duration::ZERO,
-        assume_time: Duration::ZERO,
-        assume_core_time: Duration::ZERO,
-        results: std::mem::take(results),
-    };
-
     let total = Instant::now();
 
     let parsing = Instant::now();
@@ -46,6 +38,15 @@ fn run_job<T: CollectResults + Default + Send>(
     )?;
     let parsing = parsing.elapsed();
 
+    // We only take the results gathered so far once nothing can make us return early
+    let mut checker_stats = checker::CheckerStatistics {
+        file_name: proof_file_name,
+        polyeq_time: Duration::ZERO,
+        assume_time: Duration::ZERO,
+        assume_core_time: Duration::ZERO,
+        results: std::mem::take(results),
+    };
+
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
 
     let checking = Instant::now();
diff --git a/cli/src/main.rs b/cli/src/main.rs
index 769cbd9..dc370b3 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -657,11 +657,6 @@ fn bench_command(options: BenchCommandOptions) -> CliResult<()> {
         options.checking.into(),
         options.elaborate.then(|| options.elaboration.into()),
     );
-    if results.is_empty() {
-        println!("no benchmark data collected");
-        return Ok(());
-    }
-
     if results.had_error {
         println!("invalid");
     } else if results.is_holey {
@@ -669,6 +664,10 @@ fn bench_command(options: BenchCommandOptions) -> CliResult<()> {
     } else {
         println!("valid");
     }
+    if results.is_empty() {
+        println!("no benchmark data collected");
+        return Ok(());
+    }
     results.print(options.sort_by_total);
     Ok(())
 }
-- 
2.43.0


From f2acb0d407cd3173aa208309ebc1d1f3286f9702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 70/81] fix: don't elaborate proofs that were rejected when
 benchmarking

---
 cli/src/benchmarking.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index f93b792..fb5aa1d 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -54,16 +54,19 @@ fn run_job<T: CollectResults + Default + Send>(
     let checking_result = checker.check_with_stats(&problem, &proof, &mut checker_stats);
     let checking = checking.elapsed();
 
-    let (elaboration, pipeline_durations) = if let Some((config, pipeline)) = elaborator_config {
-        let elaboration = Instant::now();
-        let node = ast::ProofNodeForest::from_commands(proof.commands);
-        let (elaborated, pipeline_durations) =
-            elaborator::Elaborator::new(&mut pool, &problem, config)
-                .elaborate_with_stats(node, pipeline);
-        elaborated.into_commands();
-        (elaboration.elapsed(), pipeline_durations)
-    } else {
-        (Duration::ZERO, Vec::new())
+    let (elaboration, pipeline_durations) = match elaborator_config {
+        Some((config, pipeline)) if checking_result.is_ok() => {
+            let elaboration = Instant::now();
+            let node = ast::ProofNodeForest::from_commands(proof.commands);
+            let (elaborated, pipeline_durations) =
+                elaborator::Elaborator::new(&mut pool, &problem, config)
+                    .elaborate_with_stats(node, pipeline);
+            elaborated.into_commands();
+            (elaboration.elapsed(), pipeline_durations)
+        }
+        // Only proofs that were accepted can be elaborated
+        Some((_, pipeline)) => (Duration::ZERO, vec![Duration::ZERO; pipeline.len()]),
+        None => (Duration::ZERO, Vec::new()),
     };
 
     let total = total.elapsed();
-- 
2.43.0


From c841a7aaaee3902bfb307f1820a6ef6c806c574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 71/81] fix: require at least one run and one job when
 benchmarking

---
 cli/src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index dc370b3..8159ca7 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -355,6 +355,14 @@ struct ElaborateCommandOptions {
     stats: StatsOptions,
 }
 
+fn validate_positive(s: &str) -> Result<(), String> {
+    match s.parse::<usize>() {
+        Ok(0) => Err("must be at least 1".into()),
+        Ok(_) => Ok(()),
+        Err(e) => Err(e.to_string()),
+    }
+}
+
 #[derive(Args)]
 struct BenchCommandOptions {
     #[clap(flatten)]
@@ -371,11 +379,11 @@ struct BenchCommandOptions {
     elaboration: ElaborationOptions,
 
     /// Number of times to run the benchmark for each file.
-    #[clap(short, long, default_value_t = 1)]
+    #[clap(short, long, default_value_t = 1, validator = validate_positive)]
     num_runs: usize,
 
     /// Number of jobs to run simultaneously when running the benchmark.
-    #[clap(short = 'j', long, default_value_t = 1)]
+    #[clap(short = 'j', long, default_value_t = 1, validator = validate_positive)]
     num_jobs: usize,
 
     /// Show benchmark results sorted by total time taken, instead of by average time taken.
-- 
2.43.0


From 011c5c3ac4ee38353804aa440a43085452de2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 72/81] fix: discharge every literal when inserting solver
 proofs for holes

---
 carcara/src/elaborator/hole.rs        | 110 +-------------------------
 carcara/src/elaborator/lia_generic.rs |   2 +-
 2 files changed, 2 insertions(+), 110 deletions(-)

diff --git a/carcara/src/elaborator/hole.rs b/carcara/src/elaborator/hole.rs
index 6f07ce6..04ead47 100644
--- a/carcara/src/elaborator/hole.rs
+++ b/carcara/src/elaborator/hole.rs
@@ -82,7 +82,7 @@ pub fn hole(elaborator: &mut Elaborator, step: &StepNode) -> Option<Rc<ProofNode
         }
     };
 
-    Some(insert_solver_proof(
+    Some(lia_generic::insert_solver_proof(
         elaborator.pool,
         commands,
         &step.clause,
@@ -159,111 +159,3 @@ fn parse_and_check_solver_proof(
     let res = checker::ProofChecker::new(pool, &rules, config).check(&problem, &proof)?;
     Ok((proof.commands, res))
 }
-
-fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) -> Rc<ProofNode> {
-    proof.mutate(|_, node, _| {
-        let node = match node.as_ref().clone() {
-            ProofNode::Assume { id, depth, term } => ProofNode::Assume {
-                id: format!("{}.{}", prefix, id),
-                depth: depth + delta,
-                term,
-            },
-            ProofNode::Step(mut s) => {
-                s.id = format!("{}.{}", prefix, s.id);
-                s.depth += delta;
-                ProofNode::Step(s)
-            }
-            ProofNode::Subproof(_) => unreachable!(),
-        };
-        Rc::new(node)
-    })
-}
-
-fn insert_solver_proof(
-    pool: &mut PrimitivePool,
-    commands: Vec<ProofCommand>,
-    conclusion: &[Rc<Term>],
-    root_id: &str,
-    depth: usize,
-) -> Rc<ProofNode> {
-    let proof = ProofNodeForest::from_commands(commands)
-        .0
-        .into_iter()
-        .find(|node| node.clause().is_empty())
-        .expect("solver proof does not conclude empty clause");
-
-    let mut ids = IdHelper::new(root_id);
-    let subproof_id = ids.next_id();
-
-    let mut clause: Vec<_> = conclusion
-        .iter()
-        .map(|l| build_term!(pool, (not (not {l.clone()}))))
-        .collect();
-
-    clause.push(pool.bool_false());
-
-    let proof = increase_subproof_depth(proof, depth + 1, root_id);
-    let subproof_assumptions = proof.get_assumptions_of_depth(depth + 1);
-
-    let last_step = Rc::new(ProofNode::Step(StepNode {
-        id: subproof_id,
-        depth: depth + 1,
-        clause: clause.clone(),
-        rule: "subproof".to_owned(),
-        premises: Vec::new(),
-        args: Vec::new(),
-        discharge: subproof_assumptions,
-        previous_step: Some(proof),
-    }));
-
-    let subproof = Rc::new(ProofNode::Subproof(SubproofNode {
-        last_step,
-        args: Vec::new(),
-        // Since the subproof was inserted from the solver proof, it cannot reference anything
-        // outside of it.
-        outbound_premises: Vec::new(),
-        extra_steps: Vec::new(),
-    }));
-
-    let not_not_steps: Vec<_> = clause[..clause.len() - 1]
-        .iter()
-        .map(|term| {
-            let clause = vec![
-                build_term!(pool, (not {term.clone()})),
-                term.remove_negation()
-                    .unwrap()
-                    .remove_negation()
-                    .unwrap()
-                    .clone(),
-            ];
-            Rc::new(ProofNode::Step(StepNode {
-                id: ids.next_id(),
-                depth,
-                clause,
-                rule: "not_not".to_owned(),
-                ..Default::default()
-            }))
-        })
-        .collect();
-
-    let false_step = Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: vec![build_term!(pool, (not {pool.bool_false()}))],
-        rule: "false".to_owned(),
-        ..Default::default()
-    }));
-
-    let mut premises = vec![subproof];
-    premises.extend(not_not_steps);
-    premises.push(false_step);
-
-    Rc::new(ProofNode::Step(StepNode {
-        id: ids.next_id(),
-        depth,
-        clause: conclusion.to_vec(),
-        rule: "resolution".to_owned(),
-        premises,
-        ..Default::default()
-    }))
-}
diff --git a/carcara/src/elaborator/lia_generic.rs b/carcara/src/elaborator/lia_generic.rs
index 35bc764..62fd428 100644
--- a/carcara/src/elaborator/lia_generic.rs
+++ b/carcara/src/elaborator/lia_generic.rs
@@ -165,7 +165,7 @@ fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) ->
     })
 }
 
-fn insert_solver_proof(
+pub(super) fn insert_solver_proof(
     pool: &mut PrimitivePool,
     commands: Vec<ProofCommand>,
     conclusion: &[Rc<Term>],
-- 
2.43.0


From d679f237adb5ea1508afef6aefc3864e7f3f2135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 73/81] fix: reject solver proofs whose assumptions don't match
 the step's clause

---
 carcara/src/elaborator/hole.rs        | 11 ++++-
 carcara/src/elaborator/lia_generic.rs | 66 ++++++++++++++-------------
 2 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/carcara/src/elaborator/hole.rs b/carcara/src/elaborator/hole.rs
index 04ead47..7f35e99 100644
--- a/carcara/src/elaborator/hole.rs
+++ b/carcara/src/elaborator/hole.rs
@@ -82,13 +82,20 @@ pub fn hole(elaborator: &mut Elaborator, step: &StepNode) -> Option<Rc<ProofNode
         }
     };
 
-    Some(lia_generic::insert_solver_proof(
+    let result = lia_generic::insert_solver_proof(
         elaborator.pool,
         commands,
         &step.clause,
         &step.id,
         step.depth,
-    ))
+    );
+    if result.is_none() {
+        log::warn!(
+            "failed to elaborate `all_simplify` step: solver proof assumes terms that are not in \
+            the step's clause"
+        );
+    }
+    result
 }
 
 fn get_solver_proof(
diff --git a/carcara/src/elaborator/lia_generic.rs b/carcara/src/elaborator/lia_generic.rs
index 62fd428..97cb224 100644
--- a/carcara/src/elaborator/lia_generic.rs
+++ b/carcara/src/elaborator/lia_generic.rs
@@ -69,13 +69,20 @@ pub fn lia_generic(elaborator: &mut Elaborator, step: &StepNode) -> Option<Rc<Pr
         }
     };
 
-    Some(insert_solver_proof(
+    let result = insert_solver_proof(
         elaborator.pool,
         commands,
         &step.clause,
         &step.id,
         step.depth,
-    ))
+    );
+    if result.is_none() {
+        log::warn!(
+            "failed to elaborate `lia_generic` step: solver proof assumes terms that are not in \
+            the step's clause"
+        );
+    }
+    result
 }
 
 fn get_solver_proof(
@@ -165,13 +172,15 @@ fn increase_subproof_depth(proof: Rc<ProofNode>, delta: usize, prefix: &str) ->
     })
 }
 
+/// Builds a proof of `conclusion` from the proof found by the solver. Returns `None` if the solver's
+/// proof has an assumption that is not the negation of one of the literals in `conclusion`.
 pub(super) fn insert_solver_proof(
     pool: &mut PrimitivePool,
     commands: Vec<ProofCommand>,
     conclusion: &[Rc<Term>],
     root_id: &str,
     depth: usize,
-) -> Rc<ProofNode> {
+) -> Option<Rc<ProofNode>> {
     let proof = ProofNodeForest::from_commands(commands)
         .0
         .into_iter()
@@ -189,38 +198,27 @@ pub(super) fn insert_solver_proof(
     clause.push(pool.bool_false());
 
     let proof = increase_subproof_depth(proof, depth + 1, &subproof_id);
-    let mut subproof_assumptions = proof.get_assumptions_of_depth(depth + 1);
-
-    // every element of conclusion must be an assumption in the
-    // proof. No other assumptions must exist in the proof. If there
-    // are less assumptions than elements of conclusion, then some of
-    // the literals were not needed for the proof. In this case we
-    // create new assumptions to account for them. Regardless, we
-    // rebuild the subproof_assumptions vector to guarantee that it is
-    // the same order of the literals in the conclusion.
-    let assume_term_to_node: HashMap<&Rc<Term>, Rc<ProofNode>> = subproof_assumptions
-        .iter()
-        .map(|node| {
-            let (_, _, term) = node.as_assume().unwrap();
-            (term, node.clone())
-        })
-        .collect();
+
+    // every assumption in the proof must be the negation of a literal in the conclusion, and each
+    // literal in the conclusion must have an assumption that is discharged, in the same order. If
+    // there are less assumptions than literals, then some of the literals were not needed for the
+    // proof, and we create new assumptions to account for them.
+    let mut assumptions: HashMap<Rc<Term>, Vec<Rc<ProofNode>>> = HashMap::new();
+    for node in proof.get_assumptions_of_depth(depth + 1) {
+        let (_, _, term) = node.as_assume().unwrap();
+        assumptions.entry(term.clone()).or_default().push(node);
+    }
 
     // we use a new kind of id to avoid clashes
     let mut ids = IdHelper::new(&format!("{}.added", subproof_id));
-    // since there may be repeated literals, which would only have
-    // a single assumption for, we take care to only retrieve an
-    // existing assumption once
-    let mut covered = IndexSet::new();
-    subproof_assumptions = conclusion
+    let subproof_assumptions = conclusion
         .iter()
         .map(|term| {
             let term = build_term!(pool, (not {term.clone()}));
-            if !covered.contains(&term) {
-                covered.insert(term.clone());
-                if assume_term_to_node.contains_key(&term) {
-                    return assume_term_to_node[&term].clone();
-                }
+            // since there may be repeated literals, we take care to only retrieve an existing
+            // assumption once
+            if let Some(node) = assumptions.get_mut(&term).and_then(Vec::pop) {
+                return node;
             }
             // build new assumption proof node
             Rc::new(ProofNode::Assume {
@@ -231,6 +229,12 @@ pub(super) fn insert_solver_proof(
         })
         .collect();
 
+    // the solver proof was checked against the text of the problem we sent to the solver, which may
+    // be parsed into terms different from the ones in the conclusion
+    if assumptions.values().any(|nodes| !nodes.is_empty()) {
+        return None;
+    }
+
     let last_step = Rc::new(ProofNode::Step(StepNode {
         id: subproof_id,
         depth: depth + 1,
@@ -284,12 +288,12 @@ pub(super) fn insert_solver_proof(
     premises.extend(not_not_steps);
     premises.push(false_step);
 
-    Rc::new(ProofNode::Step(StepNode {
+    Some(Rc::new(ProofNode::Step(StepNode {
         id: ids.next_id(),
         depth,
         clause: conclusion.to_vec(),
         rule: "resolution".to_owned(),
         premises,
         ..Default::default()
-    }))
+    })))
 }
-- 
2.43.0


From dc8b1fad57bffa333dce20033ba249e32e107c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 74/81] fix: accept steps whose id is the empty symbol outside
 of subproofs

---
 carcara/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 317ee08..9565564 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -949,9 +949,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 ));
             }
 
+            let is_inside_subproof = stack.len() > 1;
             let (top_subproof, top_end_step, _) = stack.last_mut().unwrap();
             top_subproof.commands.push(command);
-            if top_end_step == id.as_ref() {
+            if is_inside_subproof && top_end_step == id.as_ref() {
                 // If this is the last step in a subproof, we need to pop all the subproof data off
                 // of the stacks and build the subproof command with it
                 self.state.symbol_table.pop_scope();
-- 
2.43.0


From 07d82f489d0efd03e2b64ad45d3630c0cf1f5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 75/81] fix: declare functions whose definitions are not
 expanded in printed problems

---
 carcara/src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 9565564..f8b4cd3 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -794,6 +794,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         let sort = self.pool.sort(&lambda_term);
                         let var = (name, sort);
                         self.insert_sorted_var(var.clone());
+                        self.prelude().function_declarations.push(var.clone());
                         let var_term = self.pool.add(var.into());
                         let assertion_term = self
                             .pool
-- 
2.43.0


From 0297ed622eb003b78afd01f7052d04ada57c434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 76/81] fix: quote all symbols that SMT-LIB reserves or doesn't
 allow

---
 carcara/src/ast/printer.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 86f384d..404afb4 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -510,6 +510,36 @@ fn has_captured_variables(
         })
 }
 
+/// Words that are reserved in SMT-LIB, but have no special meaning in Carcara.
+const SMT_LIB_RESERVED_WORDS: &[&str] = &[
+    "BINARY",
+    "DECIMAL",
+    "HEXADECIMAL",
+    "NUMERAL",
+    "STRING",
+    "par",
+    "check-sat",
+    "declare-datatype",
+    "declare-datatypes",
+    "echo",
+    "exit",
+    "get-assertions",
+    "get-assignment",
+    "get-info",
+    "get-model",
+    "get-option",
+    "get-proof",
+    "get-unsat-assumptions",
+    "get-unsat-core",
+    "get-value",
+    "pop",
+    "push",
+    "reset",
+    "reset-assertions",
+    "set-info",
+    "set-option",
+];
+
 fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     use crate::parser::Reserved;
     use std::str::FromStr;
@@ -519,8 +549,9 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
     // Any symbol that:
     // - is an empty string,
     // - starts with a digit, or with a minus sign followed by a digit (as in GMP-style numerals),
-    // - is a reserved word, or
-    // - contains non-symbol characters
+    // - is a reserved word in Carcara or SMT-LIB, or
+    // - contains non-symbol characters (including `'`, which Carcara accepts without quotes, but
+    //   SMT solvers don't)
     // must be quoted
     if symbol.is_empty()
         || symbol
@@ -528,7 +559,8 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
             .unwrap_or(symbol)
             .starts_with(|c: char| c.is_ascii_digit())
         || Reserved::from_str(symbol).is_ok()
-        || symbol.chars().any(|c| !is_symbol_character(c))
+        || SMT_LIB_RESERVED_WORDS.contains(&symbol)
+        || symbol.chars().any(|c| !is_symbol_character(c) || c == '\'')
     {
         Cow::Owned(format!("|{}|", symbol))
     } else {
-- 
2.43.0


From fbe8fd30e6980d641a052c5f6eed2173a59ac60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 77/81] fix: reject index arguments that don't fit in a machine
 word

---
 carcara/src/ast/term.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index 29d550e..cb436cd 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -1068,12 +1068,9 @@ impl Rc<Term> {
 
     /// Similar to `Term::as_integer_err`, but also checks if non-negative.
     pub fn as_usize_err(&self) -> Result<usize, CheckerError> {
-        if let Some(i) = self.as_integer() {
-            if i >= 0 {
-                return Ok(i.to_usize().unwrap());
-            }
-        }
-        Err(CheckerError::ExpectedNonnegInteger(self.clone()))
+        self.as_integer()
+            .and_then(|i| i.to_usize())
+            .ok_or_else(|| CheckerError::ExpectedNonnegInteger(self.clone()))
     }
 
     /// Similar to `Term::as_signed_number`, but returns a `CheckerError` on failure.
-- 
2.43.0


From 3f9c704f980b30450d745e45753269082aa96c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 78/81] fix: compute the sorts of bit-vector terms over
 variables of an unknown sort

---
 carcara/src/ast/pool/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 2fa24ad..576c148 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -174,6 +174,7 @@ impl PrimitivePool {
                 | Operator::BvAShr => {
                     match self.compute_sort(&args[0]).as_sort().unwrap().clone() {
                         Sort::BitVec(width) => Sort::BitVec(width),
+                        Sort::Var(name) => Sort::Var(name),
                         Sort::ParamSort(v, head) => {
                             if let Some(Sort::Var(_)) = head.as_sort() {
                                 Sort::ParamSort(v, head)
@@ -199,6 +200,7 @@ impl PrimitivePool {
                         ParamSort(Rc<Term>),
                     }
                     let mut total_width: Vec<TotalWidth> = vec![];
+                    let mut unknown_width: Option<Sort> = None;
                     for arg in args {
                         match self.compute_sort(arg).as_sort().unwrap().clone() {
                             Sort::BitVec(arg_width) => {
@@ -207,10 +209,15 @@ impl PrimitivePool {
                             Sort::ParamSort(v, _) => {
                                 total_width.push(TotalWidth::ParamSort(v[0].clone()));
                             }
+                            // If the sort of an argument is a sort variable, the total width is not
+                            // known, so we can only give a sort variable as the sort of the term
+                            s @ Sort::Var(_) => unknown_width = Some(s),
                             _ => unreachable!(),
                         }
                     }
-                    if total_width
+                    if let Some(sort) = unknown_width {
+                        sort
+                    } else if total_width
                         .iter()
                         .any(|x| matches!(x, TotalWidth::ParamSort(_)))
                     {
-- 
2.43.0


From aa6fcb2d450369db89039c91b69bfe82ea317f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:27 +0000
Subject: [PATCH 79/81] fix: simplify terms with only identity arguments in
 aci_simp

---
 carcara/src/checker/rules/simplification.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 5ac49cf..a24cb35 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -883,10 +883,11 @@ fn apply_aci_simp(
                 .filter(|t| !is_idempotent(op) || seen.insert(t.clone()))
                 .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap())
                 .collect();
-            if args.len() == 1 {
-                args[0].clone()
-            } else {
-                pool.add(Term::Op(op, args))
+            match (args.as_slice(), identity) {
+                // If every argument was the identity, so is the result
+                ([], Some(identity)) => pool.add(identity.clone()),
+                ([arg], _) => arg.clone(),
+                _ => pool.add(Term::Op(op, args)),
             }
         }
         _ => term.clone(),
-- 
2.43.0


From 1c2451c535335dc643e19c63d354730e32c2a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 80/81] fix: compute the sorts of bit-vector terms over rare
 lists and ill-sorted rare arguments

---
 carcara/src/ast/pool/mod.rs | 80 ++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 576c148..c87ed78 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -171,20 +171,10 @@ impl PrimitivePool {
                 | Operator::BvSDiv
                 | Operator::BvSRem
                 | Operator::BvSMod
-                | Operator::BvAShr => {
-                    match self.compute_sort(&args[0]).as_sort().unwrap().clone() {
-                        Sort::BitVec(width) => Sort::BitVec(width),
-                        Sort::Var(name) => Sort::Var(name),
-                        Sort::ParamSort(v, head) => {
-                            if let Some(Sort::Var(_)) = head.as_sort() {
-                                Sort::ParamSort(v, head)
-                            } else {
-                                unreachable!()
-                            }
-                        }
-                        _ => unreachable!(),
-                    }
-                }
+                | Operator::BvAShr => match self.bv_arg_sorts(args).into_iter().next() {
+                    Some(sort) => sort,
+                    None => self.compute_sort(&args[0]).as_sort().unwrap().clone(),
+                },
                 Operator::BvComp => Sort::BitVec(1),
                 Operator::BvBbTerm | Operator::BvPBbTerm => Sort::BitVec(args.len()),
                 Operator::BvConst => match args[1].as_integer().and_then(|i| i.to_usize()) {
@@ -201,18 +191,17 @@ impl PrimitivePool {
                     }
                     let mut total_width: Vec<TotalWidth> = vec![];
                     let mut unknown_width: Option<Sort> = None;
-                    for arg in args {
-                        match self.compute_sort(arg).as_sort().unwrap().clone() {
+                    for sort in self.bv_arg_sorts(args) {
+                        match sort {
                             Sort::BitVec(arg_width) => {
                                 total_width.push(TotalWidth::Width(arg_width));
                             }
-                            Sort::ParamSort(v, _) => {
+                            Sort::ParamSort(v, _) if v.len() == 1 => {
                                 total_width.push(TotalWidth::ParamSort(v[0].clone()));
                             }
                             // If the sort of an argument is a sort variable, the total width is not
                             // known, so we can only give a sort variable as the sort of the term
-                            s @ Sort::Var(_) => unknown_width = Some(s),
-                            _ => unreachable!(),
+                            other => unknown_width = Some(other),
                         }
                     }
                     if let Some(sort) = unknown_width {
@@ -262,12 +251,15 @@ impl PrimitivePool {
                     Sort::Array(_, y) => y.as_sort().unwrap().clone(),
                     Sort::ParamSort(v, head) => {
                         if let Some(Sort::Var(_)) = head.as_sort() {
-                            v[1].as_sort().unwrap().clone()
+                            // The sort parameters of a RARE rule may be instantiated by any term
+                            let element = v.get(1).and_then(|t| t.as_sort()).cloned();
+                            element.unwrap_or_else(|| head.as_sort().unwrap().clone())
                         } else {
                             unreachable!()
                         }
                     }
-                    _ => unreachable!(),
+                    // This only happens while a RARE rule is being instantiated
+                    other => other.clone(),
                 },
                 Operator::Store => self.compute_sort(&args[0]).as_sort().unwrap().clone(),
                 Operator::StrLen | Operator::IndexOf | Operator::StrToCode | Operator::StrToInt => {
@@ -355,24 +347,24 @@ impl PrimitivePool {
                     }
                     ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
                         let extension_width = op_args[0].as_integer().unwrap().to_usize().unwrap();
-                        let Sort::BitVec(bv_width) =
-                            self.compute_sort(&args[0]).as_sort().unwrap().clone()
-                        else {
-                            unreachable!()
-                        };
-                        Sort::BitVec(extension_width + bv_width)
+                        match self.bv_arg_sorts(args).as_slice() {
+                            [Sort::BitVec(bv_width), ..] => {
+                                Sort::BitVec(extension_width + *bv_width)
+                            }
+                            _ => self.compute_sort(&args[0]).as_sort().unwrap().clone(),
+                        }
                     }
                     ParamOperator::RotateLeft | ParamOperator::RotateRight => {
                         self.compute_sort(&args[0]).as_sort().unwrap().clone()
                     }
                     ParamOperator::Repeat => {
                         let repetitions = op_args[0].as_integer().unwrap();
-                        let Sort::BitVec(bv_width) =
-                            self.compute_sort(&args[0]).as_sort().unwrap().clone()
-                        else {
-                            unreachable!()
-                        };
-                        Sort::BitVec((repetitions * bv_width).to_usize().unwrap())
+                        match self.bv_arg_sorts(args).as_slice() {
+                            [Sort::BitVec(bv_width), ..] => {
+                                Sort::BitVec((repetitions * *bv_width).to_usize().unwrap())
+                            }
+                            _ => self.compute_sort(&args[0]).as_sort().unwrap().clone(),
+                        }
                     }
 
                     ParamOperator::BvConst => unreachable!(
@@ -395,6 +387,28 @@ impl PrimitivePool {
         self.sorts_cache[term].clone()
     }
 
+    /// The bit-vector sorts of the arguments of a bit-vector operation.
+    ///
+    /// While a RARE rule is being instantiated, the arguments can also be lists (in which case their
+    /// elements will be the arguments), or, for parameters whose sort is polymorphic, terms of other
+    /// sorts, which this ignores.
+    fn bv_arg_sorts(&mut self, args: &[Rc<Term>]) -> Vec<Sort> {
+        let mut result = Vec::new();
+        for arg in args {
+            let elements = match arg.as_ref() {
+                Term::Op(Operator::RareList, elements) => elements.as_slice(),
+                _ => std::slice::from_ref(arg),
+            };
+            for e in elements {
+                let sort = self.compute_sort(e).as_sort().unwrap().clone();
+                if matches!(sort, Sort::BitVec(_)) || sort.is_polymorphic() {
+                    result.push(sort);
+                }
+            }
+        }
+        result
+    }
+
     fn add_with_priorities<const N: usize>(
         &mut self,
         term: Term,
-- 
2.43.0


From 3dc57c28f1ee86c77a575b7f34f15ca354af196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:25 +0000
Subject: [PATCH 81/81] fix: check the sorts of the arguments of rare rules
 with parametric sorts

---
 carcara/src/ast/substitution.rs |  6 +++++-
 carcara/src/ast/term.rs         | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 828a93c..2c19736 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -75,7 +75,11 @@ impl Substitution {
                 return Err(SubstitutionError::NotAVariable(k.clone()));
             }
             if pool.sort(k) != pool.sort(v)
-                && !pool.sort(k).as_sort().is_some_and(Sort::is_polymorphic)
+                && !pool.sort(k).as_sort().is_some_and(|var_sort| {
+                    pool.sort(v)
+                        .as_sort()
+                        .is_some_and(|s| var_sort.may_be_instantiated_by(s))
+                })
             {
                 return Err(SubstitutionError::DifferentSorts(k.clone(), v.clone()));
             }
diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index cb436cd..003d6af 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -1153,4 +1153,24 @@ impl Sort {
             _ => false,
         }
     }
+
+    /// Whether a variable of this polymorphic sort may stand for a term of the given sort. A sort
+    /// variable stands for any sort, but a parametric sort, like `(BitVec @n)` or `(Array @K @E)`,
+    /// only for the sorts that have the same head.
+    pub fn may_be_instantiated_by(&self, sort: &Sort) -> bool {
+        match self {
+            Sort::Var(_) => true,
+            Sort::ParamSort(_, head) => match head.as_sort() {
+                Some(Sort::Var(head)) if head == "BitVec" => {
+                    matches!(sort, Sort::BitVec(_)) || sort.is_polymorphic()
+                }
+                Some(Sort::Var(head)) if head == "Array" => {
+                    matches!(sort, Sort::Array(..)) || sort.is_polymorphic()
+                }
+                Some(Sort::Var(_)) => true,
+                _ => false,
+            },
+            _ => false,
+        }
+    }
 }
-- 
2.43.0

