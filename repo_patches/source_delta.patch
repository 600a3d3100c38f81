From d198f83e0a7cf38d0e170c0fb7bbbcf866e25d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 01/53] fix: drop cancelled variables (x - x, 0 * x) when
 canonicalizing sums

Grouping the occurrences of a variable whose coefficients cancel out produced
the variable itself instead of nothing, so e.g. (>= (- x x) 1) was reported SAT.
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index d6486f0..9cbf60a 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -111,6 +111,8 @@ impl<'a> Canonicalizer<'a> {
             use std::cmp::Ordering::*;
             res.extend(
                 map.into_iter()
+                    // variables whose coefficients cancel out (e.g. x - x) don't contribute
+                    .filter(|(_, (pos, neg))| pos != neg)
                     .map(|(HashOrdered(v), (pos, neg))| match pos.cmp(&neg) {
                         Less => {
                             let x = neg - pos;
@@ -129,7 +131,7 @@ impl<'a> Canonicalizer<'a> {
                                 Mul([Constant::Numeral(x).into(), v.into()].into()).into()
                             }
                         }
-                        Equal => v.into(),
+                        Equal => unreachable!("cancelled variables are filtered out"),
                     }),
             );
             res
@@ -172,6 +174,8 @@ impl<'a> Canonicalizer<'a> {
         match c_pos.cmp(&c_neg) {
             Less => args.push(Self::negate(Constant::Numeral(c_neg - c_pos).into())),
             Greater => args.push(Constant::Numeral(c_pos - c_neg).into()),
+            // Everything cancelled out: sums need at least one summand to be well-sorted
+            Equal if args.is_empty() => args.push(Constant::Numeral(Numeral::zero()).into()),
             Equal => (),
         }
         Plus(args).into()
-- 
2.43.0


From e2f4973fd0a2cc0d9941d5f65bbe70be6c7c8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 02/53] fix: evaluate integer constraints without variables
 when canonicalizing

Ground constraints such as (>= 3 2) or (= (- x x) 0) have no left-hand side to
compute a solution bound from: they were rejected (or failed an assertion).
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 53 ++++++++++++-------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 9cbf60a..2502b73 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -210,6 +210,34 @@ impl<'a> Canonicalizer<'a> {
         };
         (Plus(args).into(), rhs)
     }
+
+    /// Compares the two sides of a normalized constraint, if it doesn't contain any variables.
+    fn compare_ground(l: &Term, r: &Term) -> Option<std::cmp::Ordering> {
+        use std::cmp::Ordering::*;
+        let is_ground = matches!(l, Term::OtherOp(op)
+            if matches!(op.as_ref(), Op::Arith(ArithOp::Plus(args)) if args.is_empty()));
+        match int_term(r) {
+            Some((x, _)) if is_ground && x.is_zero() => Some(Equal),
+            Some((_, positive)) if is_ground => Some(if positive { Less } else { Greater }),
+            _ => None,
+        }
+    }
+
+    fn normalized_eq(l: Term, r: Term) -> Term {
+        let (l, r) = Self::normalize_constraint(l, r);
+        match Self::compare_ground(&l, &r) {
+            Some(ordering) => ordering.is_eq().into(),
+            None => CoreOp::Eq([l, r].into()).into(),
+        }
+    }
+
+    fn normalized_gte(l: Term, r: Term) -> Term {
+        let (l, r) = Self::normalize_constraint(l, r);
+        match Self::compare_ground(&l, &r) {
+            Some(ordering) => ordering.is_ge().into(),
+            None => ArithOp::Gte([l, r].into()).into(),
+        }
+    }
 }
 
 impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
@@ -230,10 +258,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .ok_or_else(|| UnknownSort(CoreOp::Eq(args.clone()).into()))
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
-                    chained(args, |l, r| {
-                        let (l, r) = Self::normalize_constraint(l, r);
-                        CoreOp::Eq([l, r].into()).into()
-                    })
+                    chained(args, Self::normalized_eq)
                 } else {
                     CoreOp::Eq(args).into()
                 }
@@ -248,15 +273,9 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                 );
                 if sort == ISort::int() {
                     let res = Term::from(self.context.fresh_var(sort)?);
-                    let if_true = {
-                        let (l, r) = Self::normalize_constraint(res.clone(), consq);
-                        CoreOp::Eq([l, r].into()).into()
-                    };
+                    let if_true = Self::normalized_eq(res.clone(), consq);
                     self.new_asserts.push(implies(cond.clone(), if_true));
-                    let if_false = {
-                        let (l, r) = Self::normalize_constraint(res.clone(), alt);
-                        CoreOp::Eq([l, r].into()).into()
-                    };
+                    let if_false = Self::normalized_eq(res.clone(), alt);
                     self.new_asserts.push(implies(!cond, if_false));
                     res
                 } else {
@@ -268,10 +287,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .ok_or_else(|| UnknownSort(CoreOp::Distinct(args.clone()).into()))
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
-                    pairwise(&args, |x, y| {
-                        let (l, r) = Self::normalize_constraint(x, y);
-                        !Term::from(CoreOp::Eq([l, r].into()))
-                    })
+                    pairwise(&args, |x, y| !Self::normalized_eq(x, y))
                 } else {
                     CoreOp::Distinct(args).into()
                 }
@@ -284,10 +300,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
         use ArithOp::*;
         use Op::*;
 
-        let normalize_gte = |l, r| {
-            let (l, r) = Self::normalize_constraint(l, r);
-            Gte([l, r].into()).into()
-        };
+        let normalize_gte = Self::normalized_gte;
         let op = match op.super_fold_with(self)? {
             Arith(Plus(args)) => Self::canonicalize_plus(args),
             Arith(Neg(arg)) => Self::negate(arg),
-- 
2.43.0


From 48176ea4dbc863a3d1725258f10dcf9689f92098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 03/53] fix: account for summands on the right-hand side when
 computing the solution bound

Normalization moves a summand to the right-hand side when a constraint has no
constant. Only the left-hand side was considered when looking for separation
constraints and when measuring a constraint's width, so x = y + z or x = 2y were
taken for separation constraints. The resulting bound was too small and
satisfiable formulas (e.g. f_n+2 = f_n+1 + f_n) were reported UNSAT.
---
 amzn-smt-eager-arithmetic/src/stats.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 47152eb..7f2753b 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -1,7 +1,7 @@
 //! Validation of quantifier-free ALL arithmetic SMT formulas.
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use super::Constant;
+use super::{int_term, Constant};
 use anyhow::anyhow;
 use aws_smt_ir::{
     logic::{
@@ -95,10 +95,17 @@ impl Stats {
                 },
                 _ => bad(),
             };
+            let constant_rhs = matches!(args.last(), Some(rhs) if int_term(rhs).is_some());
             // Check if this is the LHS of a separation constraint (SC)
             match lhs {
                 // x >= c (SC)
-                [Term::Variable(_)] => {}
+                [Term::Variable(_)] if constant_rhs => {}
+                // x >= y === x - y >= 0 (SC)
+                [Term::Variable(_)] if matches!(args.last(), Some(Term::Variable(_))) => {}
+                // a*x >= b*y, x - y >= z, ... (not SCs)
+                _ if !constant_rhs => {
+                    k += 1;
+                }
                 // -x >= c === x <= -c (SC)
                 [Term::OtherOp(op)]
                 // x - y >= c (SC)
@@ -319,6 +326,14 @@ impl<'a> StatsVisitor<'a> {
                 try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
+                if let (None, Term::OtherOp(op)) = (int_term(r), l) {
+                    // A summand was moved to the right-hand side: it counts towards the width
+                    if let Op::Arith(ArithOp::Plus(args)) = op.as_ref() {
+                        try_break!(self.with_stats(|stats| {
+                            stats.w = stats.w.max(args.len() + 1);
+                        }));
+                    }
+                }
                 self.expecting = Expecting::Formula;
                 self.current_partition = None;
                 ControlFlow::CONTINUE
-- 
2.43.0


From a0d60f9be3640d669dbf9c671fe5ad62c2ddebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 04/53] fix: decode integers wider than 64 bits

Weights of the bits were computed as isize powers of two, which overflow.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 5e819d3..9a551b3 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -569,23 +569,22 @@ impl Encoder {
                 Variable::Int(v) => {
                     let bits = self.int_var_bits(v);
                     let len = bits.len();
-                    let val = bits
-                        .enumerate()
+                    // 2's complement: the most significant bit has a negative weight
+                    let (mut pos, mut neg) = (Numeral::zero(), Numeral::zero());
+                    bits.enumerate()
                         .filter(|(_, bit)| bit.evaluate(assignment).unwrap())
-                        .map(|(bit, _)| {
-                            let x = 2isize.pow(bit as u32);
+                        .for_each(|(bit, _)| {
+                            let x = Numeral::from(1u8) << bit;
                             if bit == len - 1 {
-                                -x
+                                neg += x;
                             } else {
-                                x
+                                pos += x;
                             }
-                        })
-                        .sum::<isize>();
-                    let abs = Constant::Numeral(Numeral::from(val.unsigned_abs())).into();
-                    let val = if val >= 0 {
-                        abs
+                        });
+                    let val = if pos >= neg {
+                        Constant::Numeral(pos - neg).into()
                     } else {
-                        Op::Arith(ArithOp::Neg(abs)).into()
+                        Op::Arith(ArithOp::Neg(Constant::Numeral(neg - pos).into())).into()
                     };
                     (symbol, val)
                 }
-- 
2.43.0


From ffb3620e3819d393c11708c8f04d62e70aef4d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 05/53] fix: make the bit order of bit-vector constants and
 models consistent

#b... constants (and the models built from them) list the most-significant bit
first, while the encoding, and constants of the form (_ bvN w), start with the
least-significant bit: bvule compared against mirrored constants and models
contained mirrored values.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 9a551b3..b4fce75 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -69,7 +69,13 @@ impl InterLogicFolder<ALL> for Encoder {
 
     fn fold_var(&mut self, var: IVar<QualIdentifier>) -> Result<Term<Self::U>, Self::Error> {
         if let Some(bv) = var.to_bitvec_literal() {
-            Ok(bv.into())
+            Ok(match bv {
+                // `to_bitvec_literal` yields the least-significant bit first, whereas `#b...`
+                // constants start with the most-significant bit
+                Constant::Binary(bits) => Constant::Binary(bits.into_iter().rev().collect()),
+                bv => bv,
+            }
+            .into())
         } else {
             Ok(Term::from(IVar::from(self.var(&var)?)))
         }
@@ -245,7 +251,8 @@ impl Encoder {
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().copied().map_into())),
+            // `#b...` constants start with the most-significant bit
+            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
             Constant::Hexadecimal(_) => {
                 todo!("hexadecimal bit iterator")
             }
@@ -590,8 +597,10 @@ impl Encoder {
                 }
                 Variable::Bool(v) => (symbol, assignment[&v].into()),
                 Variable::Bv(bv) => {
+                    // `#b...` constants start with the most-significant bit
                     let bits = self
                         .bit_vec_bits(&bv)
+                        .rev()
                         .map(|bit| bit.evaluate(assignment).unwrap());
                     (bv.sym().clone(), Constant::Binary(bits.collect()).into())
                 }
-- 
2.43.0


From 7014a1ef2beafb578e33ef2af0d771328028b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 06/53] fix: support distinct booleans

Only distinct integers were eliminated by canonicalization, the formulas with
other applications were rejected by the bound computation.
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 2502b73..1a64184 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -288,6 +288,8 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
                     pairwise(&args, |x, y| !Self::normalized_eq(x, y))
+                } else if sort == Ok(ISort::bool()) {
+                    pairwise(&args, |x, y| !Term::from(CoreOp::Eq([x, y].into())))
                 } else {
                     CoreOp::Distinct(args).into()
                 }
-- 
2.43.0


From 2927c281139ba11e74baf60e75eba0ebd6e9b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 07/53] fix: reject scripts that retract assertions

(pop), (reset) and (reset-assertions) were ignored: assertions that had been
retracted still took part in the encoding, so satisfiable scripts were reported
UNSAT.
---
 amzn-smt-eager-arithmetic/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index d580e37..409439d 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -118,6 +118,13 @@ fn encode_inner(
     let start = Instant::now();
     let uflia = Script::<Term>::parse(smt)?;
     println!("Parse time: {:?}", start.elapsed());
+    // All of the assertions are encoded together, so retracting some of them isn't supported
+    if let Some(command) = uflia.as_ref().iter().find(|command| {
+        use aws_smt_ir::smt2parser::concrete::Command::*;
+        matches!(command, Pop { .. } | Reset | ResetAssertions)
+    }) {
+        return Err(anyhow!("unsupported command: {}", command));
+    }
     let start = Instant::now();
     let mut ctx = Ctx::default();
     // TODO: is it necessary to eliminate lets up-front?
-- 
2.43.0


From 628a0b07c9794357d9ef1605773282fb7a901d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 08/53] fix: encode variadic xors as binary ones

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 1a64184..89143b2 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -294,6 +294,10 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     CoreOp::Distinct(args).into()
                 }
             }
+            // The CNF translation of negated `xor`s is only right for two arguments
+            CoreOp::Xor(args) if args.len() > 2 => (args.into_iter())
+                .reduce(|l, r| l ^ r)
+                .expect("there are more than two arguments"),
             op => op.into(),
         })
     }
-- 
2.43.0


From faf30fd379f8c5ee7b3252aeb786be5d8927102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 09/53] fix: report errors that occur while flushing the CNF
 encoding to its sink

---
 amzn-smt-eager-arithmetic/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index 409439d..ae7fd07 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -101,9 +101,14 @@ fn reconstruct(
     }
 }
 
-pub fn encode(smt: impl io::BufRead, cnf_sink: impl Write) -> anyhow::Result<()> {
+pub fn encode(smt: impl io::BufRead, mut cnf_sink: impl Write) -> anyhow::Result<()> {
     let (cnf, _, _, _) = encode_inner(smt)?;
-    cnf.write_dimacs(cnf_sink)
+    // `write_dimacs` buffers its output and loses errors that occur when the buffer is flushed, so
+    // it mustn't write to a sink that can fail
+    let mut dimacs = Vec::new();
+    cnf.write_dimacs(&mut dimacs)
+        .and_then(|()| cnf_sink.write_all(&dimacs))
+        .and_then(|()| cnf_sink.flush())
         .context("Unable to write CNF encoding to sink")
 }
 
-- 
2.43.0


From bceaa8ee5153b91dc965e53da2e1bdbb29728ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 10/53] fix: report errors that occur while reading the script

---
 amzn-smt-eager-arithmetic/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index ae7fd07..1f734e5 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -113,7 +113,7 @@ pub fn encode(smt: impl io::BufRead, mut cnf_sink: impl Write) -> anyhow::Result
 }
 
 fn encode_inner(
-    smt: impl io::BufRead,
+    mut smt: impl io::BufRead,
 ) -> anyhow::Result<(
     CnfTerm,
     HashMap<BoolVariable, cnf::Variable>,
@@ -121,7 +121,11 @@ fn encode_inner(
     impl FnOnce(Model<ALL>) -> Model<ALL>,
 )> {
     let start = Instant::now();
-    let uflia = Script::<Term>::parse(smt)?;
+    // The parser takes errors of its input for the end of the script, so read all of it up front
+    let mut script = Vec::new();
+    smt.read_to_end(&mut script)
+        .context("Unable to read SMT-LIB script")?;
+    let uflia = Script::<Term>::parse(script.as_slice())?;
     println!("Parse time: {:?}", start.elapsed());
     // All of the assertions are encoded together, so retracting some of them isn't supported
     if let Some(command) = uflia.as_ref().iter().find(|command| {
-- 
2.43.0


From c492abf42a70fc4c03d93d84f3e33308329760fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 11/53] fix: reject check-sat-assuming instead of ignoring its
 assumptions

---
 amzn-smt-eager-arithmetic/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index 1f734e5..c48cbdb 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -127,10 +127,14 @@ fn encode_inner(
         .context("Unable to read SMT-LIB script")?;
     let uflia = Script::<Term>::parse(script.as_slice())?;
     println!("Parse time: {:?}", start.elapsed());
-    // All of the assertions are encoded together, so retracting some of them isn't supported
+    // All of the assertions are encoded together, so neither retracting some of them nor assuming
+    // more of them for a single query is supported
     if let Some(command) = uflia.as_ref().iter().find(|command| {
         use aws_smt_ir::smt2parser::concrete::Command::*;
-        matches!(command, Pop { .. } | Reset | ResetAssertions)
+        matches!(
+            command,
+            Pop { .. } | Reset | ResetAssertions | CheckSatAssuming { .. }
+        )
     }) {
         return Err(anyhow!("unsupported command: {}", command));
     }
-- 
2.43.0


From 8dc1e1db7a02b568c3eae737516786fe2c8fe4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 12/53] fix: keep the function and literals of call graph nodes
 that are used next to literals

---
 amzn-smt-string-transformer/src/callgraph.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index dcef018..d388aa5 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -232,11 +232,12 @@ impl CallGraph {
 
     /// add sibling relationships to the callgraph. every node in the specified set gets every other node in the set
     /// added as direct siblings.
-    /// the list of string literals passed in are the string literal siblings of all these nodes.
+    /// the string literal siblings of these nodes need not be tracked here: they are what the common
+    /// parent is built from, so they end up in the cliques of all these nodes.
     pub fn add_direct_siblings(
         &mut self,
         siblings: BTreeSet<ISymbol>,
-        sib_strings: BTreeSet<String>,
+        _sib_strings: BTreeSet<String>,
     ) -> Result<(), AffectErr> {
         // build up the list of sibling IDs
         let mut sib_ids: BTreeSet<NodeId> = BTreeSet::new();
@@ -250,7 +251,7 @@ impl CallGraph {
                 }
             }
         }
-        // update siblings with the new sibling nodes, and new sibling strings
+        // update siblings with the new sibling nodes
         for sib_id in &sib_ids {
             self.forest.update_node_at_index(
                 *sib_id,
@@ -258,12 +259,8 @@ impl CallGraph {
                     parent: None,
                     child: None,
                     siblings: Some(sib_ids.clone()),
-                    data: if !sib_strings.is_empty() {
-                        // adding to the string_lits_built_from
-                        Some(CallnodeData::new(StringFct::NO_OP, sib_strings.clone()))
-                    } else {
-                        None
-                    },
+                    // the function and literals this node is built from stay as they are
+                    data: None,
                 },
             )?;
         }
-- 
2.43.0


From 540569086505e69da897f8ac617b91a05e49df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 13/53] fix: relate string literals transitively, and through
 terms without variables

The sets of string literals that are used together were the union of the cliques
that directly contain a variable, so they depended on the iteration order of a
hash map and missed literals connected through a chain of variables, and literals
connected by terms over literals alone.
---
 amzn-smt-string-transformer/src/callgraph.rs | 33 +++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index d388aa5..e830525 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -474,13 +474,21 @@ impl CallGraph {
         let mut cids: Vec<&NodeId> = cliques.keys().collect::<Vec<_>>();
         cids.sort();
 
-        for cid in cids {
-            let clique = &cliques[cid];
-            if clique.vars.contains(&var) {
+        // being used together is transitive: collect until no further clique is connected
+        loop {
+            let (connected, rest): (Vec<&NodeId>, Vec<&NodeId>) = cids
+                .into_iter()
+                .partition(|cid| !cliques[cid].vars.is_disjoint(&contrib_vars));
+            for cid in &connected {
+                let clique = &cliques[cid];
                 contrib_vars.extend(clique.vars.iter().cloned());
                 contrib_string_fcts.extend(clique.string_fcts.iter().cloned());
                 contrib_string_lits.extend(clique.string_lits.iter().cloned());
             }
+            if connected.is_empty() {
+                break;
+            }
+            cids = rest;
         }
 
         // finally, once the data has all been collected, update the current node with the contribs
@@ -536,8 +544,10 @@ impl CallGraph {
     }
 
     /// function to construct all the cliques in the callgraph.
-    /// for each constraint var, we construct a clique of linked nodes in the graph
-    /// this is the set of, for each constraint var cvar,
+    /// for each constraint var, and each application of a function that does not return a Bool (terms
+    /// without constraint vars connect string literals too), we construct a clique of linked nodes
+    /// in the graph
+    /// this is the set of, for each such node cvar,
     ///       everything that was used_to_build what cvar was used_to_build
     /// computed as: foreach var in cvar.used_to_build:
     ///                  collect var.built_from
@@ -549,8 +559,17 @@ impl CallGraph {
         &mut self,
     ) -> Result<HashMap<NodeId, NodeSetData>, AffectErr> {
         let mut constraint_cliques: HashMap<NodeId, NodeSetData> =
-            HashMap::with_capacity(self.constraint_vars.len());
-        for cvar in &self.constraint_vars {
+            HashMap::with_capacity(self.forest.nodes().len());
+        for cvar in self.forest.nodes().keys() {
+            // nothing propagates through functions that return a Bool
+            if self
+                .get_data_for_ind(cvar)?
+                .string_fct
+                .string_fct_return_type()
+                == IdentType::BoolType
+            {
+                continue;
+            }
             if let Some(cvar_utbs) = &self.get_data_for_ind(cvar)?.used_to_build {
                 let mut clique_vars: BTreeSet<NodeId> =
                     cvar_utbs.vars.iter().cloned().collect::<BTreeSet<_>>();
-- 
2.43.0


From 997018b8d565bbba9fb3fb7917d2fceb798a8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 14/53] fix: never keep a string mapping that breaks the
 required properties

In no-reconstruct mode strings without a letter to vary looped or panicked, text
after a digit was dropped, and duplicates, lost lengths and accidental substrings
were kept. Such mappings now fail, and everything is mapped char-to-char instead.
---
 .../src/string_mappings.rs                    | 113 +++++++++++++-----
 amzn-smt-string-transformer/src/transpiler.rs |  62 ++++++++--
 2 files changed, 135 insertions(+), 40 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 61ac689..b26e6e2 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -116,7 +116,7 @@ pub fn gen_string_keep_ranges(
     len_bool: bool,
     keep_ints: KeepInts,
     consider_substrings: bool,
-) -> String {
+) -> Result<String, StringMapError> {
     let mut to_ret = "".to_string();
     let mut cur_range: Option<&RangeParams> = None;
     // iterate over the string to be mapped, character by character
@@ -125,11 +125,13 @@ pub fn gen_string_keep_ranges(
         match (keep_ints, c.is_ascii_digit()) {
             (KeepInts::AsInts, true) => {
                 to_ret.push('0');
-                break;
+                cur_range = None;
+                continue;
             }
             (KeepInts::ExactInts, true) => {
                 to_ret.push(c);
-                break;
+                cur_range = None;
+                continue;
             }
             _ => {}
         }
@@ -172,20 +174,15 @@ pub fn gen_string_keep_ranges(
     }
     // deal with the case that this generated string is already in the map
     // this is where we consider substrings if this argument is true
-    let repeat_fix = fix_repeated_string(
+    fix_repeated_string(
         s.to_string(),
-        to_ret.clone(),
+        to_ret,
         char_map,
         100u8, // number of retries allowed
         keep_ints,
         consider_substrings,
         len_bool,
-    );
-    if let Ok(to_ret) = repeat_fix {
-        to_ret
-    } else {
-        map_string_char_to_char(s, char_map).unwrap()
-    }
+    )
 }
 
 /// check to see if a mapped string is already in the map.
@@ -205,7 +202,16 @@ fn fix_repeated_string(
     let mut retry_ind: usize = 0; // index of the mapped string we're perturbing
     let mut retry_add = 1; // offset to be applied on the current char
     let mut cur_try = 0; // number of attempts
-    let mut retry_char = to_ret.chars().nth(retry_ind).unwrap(); // character we're perturbing
+    let orig_chars: Vec<char> = to_ret.chars().collect();
+    // character we're perturbing: the one that was mapped to, as long as indices still refer to it
+    let get_retry_char = |to_ret: &str, retry_ind: usize| {
+        if to_ret.chars().count() == orig_chars.len() {
+            orig_chars[retry_ind]
+        } else {
+            to_ret.chars().nth(retry_ind).unwrap()
+        }
+    };
+    let mut retry_char = get_retry_char(&to_ret, retry_ind);
     let mut reps = 1; // number of repetitions of the current char we're adding in the perturbation
                       // (this stays 1 if the length or substrings properties need to be maintained)
     while char_map.string_map.iter().any(|(key, val)| {
@@ -227,6 +233,12 @@ fn fix_repeated_string(
                     })
                 )))
     }) {
+        cur_try += 1;
+        if cur_try > retries_allowed {
+            // error out if we have exceeded retries allowed
+            return Err(StringMapError::RemapRetryCountExceeded);
+        }
+
         // get next non-range char in the charmap
         let next_char = char::from_u32(update_and_get_next_char(
             char_map,
@@ -239,7 +251,7 @@ fn fix_repeated_string(
             Some(c) => !c.is_ascii(),
         } {
             retry_ind = 0;
-            retry_char = to_ret.chars().nth(retry_ind).unwrap();
+            retry_char = get_retry_char(&to_ret, retry_ind);
             retry_add += 1;
             continue;
         }
@@ -255,11 +267,11 @@ fn fix_repeated_string(
         }) = char_map.get_backwards_range_for_char(retry_char)
         {
             if next_char < s || next_char > e {
-                retry_ind = (retry_ind + 1) % to_ret.len();
+                retry_ind = (retry_ind + 1) % to_ret.chars().count();
                 if retry_ind == 0 {
                     retry_add += 1;
                 }
-                retry_char = to_ret.chars().nth(retry_ind).unwrap();
+                retry_char = get_retry_char(&to_ret, retry_ind);
                 continue;
             }
         }
@@ -267,25 +279,21 @@ fn fix_repeated_string(
         if matches!(keep_ints, KeepInts::AsInts | KeepInts::ExactInts)
             && retry_char.is_ascii_digit()
         {
-            retry_ind = (retry_ind + 1) % to_ret.len();
+            retry_ind = (retry_ind + 1) % to_ret.chars().count();
             if retry_ind == 0 {
                 retry_add += 1;
             }
-            retry_char = to_ret.chars().nth(retry_ind).unwrap();
+            retry_char = get_retry_char(&to_ret, retry_ind);
             continue;
         }
-        cur_try += 1;
-        if cur_try > retries_allowed {
-            // error out if we have exceeded retries allowed
-            return Err(StringMapError::RemapRetryCountExceeded);
-        }
 
         // actually modify the string
         // at this point we're guaranteed the modification will maintain relevant properties
+        let (retry_pos, replaced_char) = to_ret.char_indices().nth(retry_ind).unwrap();
         to_ret.replace_range(
-            retry_ind..(retry_ind + 1),
+            retry_pos..(retry_pos + replaced_char.len_utf8()),
             &next_char.to_string().repeat(
-                if consider_substrings && (retry_ind == 0 || retry_ind + 1 == to_ret.len()) {
+                if consider_substrings && (retry_ind == 0 || retry_ind + 1 == to_ret.chars().count()) {
                     // only repeat if not first/last char
                     1 // if we care about substrings
                 } else {
@@ -293,7 +301,7 @@ fn fix_repeated_string(
                 },
             ),
         );
-        retry_ind = (retry_ind + 1) % to_ret.len();
+        retry_ind = (retry_ind + 1) % to_ret.chars().count();
         if retry_ind == 0 {
             retry_add += 1;
             // if we don't need to keep length or substrings, can start repeating characters
@@ -301,6 +309,7 @@ fn fix_repeated_string(
                 reps += 1;
             }
         }
+        retry_char = get_retry_char(&to_ret, retry_ind);
     }
     Ok(to_ret)
 }
@@ -408,6 +417,13 @@ pub fn gen_string_keep_substrings(
     keep_ints: KeepInts,
     keep_ranges: bool,
 ) -> Result<String, StringMapError> {
+    // whatever this string is part of, its own required properties need to be maintained too
+    let (len_bool, keep_ints) = match char_map.string_lit_props.get(s) {
+        Some(StringSetProperties::Some {
+            len, keep_ints: ki, ..
+        }) => (len_bool || *len, KeepInts::merge(ki, keep_ints)),
+        _ => (len_bool, keep_ints),
+    };
     if s.is_empty() {
         return Ok(s.to_string()); // empty string always maps to itself
     } else if s.len() == 1 {
@@ -512,6 +528,12 @@ pub fn gen_string_keep_substrings(
         gen_string_keep_substrings(&s_prefix, char_map, len_bool, keep_ints, keep_ranges)?;
     let mapped_suffix =
         gen_string_keep_substrings(&s_suffix, char_map, len_bool, keep_ints, keep_ranges)?;
+    // all other required substrings need to be mapped before the gaps between them are
+    let mut inner_strings = mid_substrings.clone();
+    inner_strings.sort_by(|s1, s2| (s1.len(), s1).cmp(&(s2.len(), s2)));
+    for inner_string in &inner_strings {
+        gen_string_keep_substrings(inner_string, char_map, len_bool, keep_ints, keep_ranges)?;
+    }
 
     let mut to_ret = mapped_prefix;
 
@@ -695,7 +717,7 @@ fn gen_gap_mapped(
     len_bool: bool,
     keep_ints: KeepInts,
 ) -> Result<String, StringMapError> {
-    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true);
+    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true)?;
     // last bool is consider_substrings
     let gap_mapped = fix_repeated_string(
         gap_string, gap_mapped, char_map, 100u8, keep_ints, true, len_bool,
@@ -743,12 +765,47 @@ pub fn gen_string_freeforall(_s: &str, char_map: &mut CharMap) -> Result<String,
         cur_offset += 1;
         cur_tries += 1;
     }
-    if cur_tries > retries {
+    if char_map.string_map.values().any(|val| val == &to_ret) {
         return Err(StringMapError::RemapRetryCountExceeded);
     }
     Ok(to_ret)
 }
 
+/// check that the strings mapped so far respect the properties required of them: no two strings
+/// map to the same string, and the lengths and the substring relationships that need to be kept are.
+/// (the mapping strategy is incomplete: if this is false, all strings need to be mapped char-to-char)
+pub fn respects_required_props(char_map: &CharMap) -> bool {
+    // the range endpoints are mapped without being in the string map
+    let mut mapped = char_map.string_map.clone();
+    for r in &char_map.ranges {
+        for c in [&r.start_char, &r.end_char] {
+            mapped.insert(c.to_string(), char_map.char_map[c].to_string());
+        }
+    }
+    let props = |s: &String| match char_map.string_lit_props.get(s) {
+        Some(StringSetProperties::Some {
+            len,
+            keep_substrings,
+            ..
+        }) => (*len, *keep_substrings),
+        _ => (false, false),
+    };
+    mapped.iter().all(|(s1, m1)| {
+        let (keep_len, keep_substrings) = props(s1);
+        (s1.is_empty() == m1.is_empty())
+            && (!keep_len || s1.chars().count() == m1.chars().count())
+            && mapped.iter().filter(|(s2, _)| s1 != *s2).all(|(s2, m2)| {
+                m1 != m2
+                    && (!keep_substrings
+                        || !props(s2).1
+                        || s2.is_empty()
+                        || (s1.starts_with(s2) == m1.starts_with(m2)
+                            && s1.ends_with(s2) == m1.ends_with(m2)
+                            && s1.matches(s2).count() == m1.matches(m2).count()))
+            })
+    })
+}
+
 /// map a string with the no-reconstruct mapping strategy.
 /// this should be called *after* all the substrings-respecting strings have been mapped (these
 /// all need to be mapped first).
@@ -843,7 +900,7 @@ pub fn map_string_no_reconstruct(
                         to_ret = gen_string_freeforall(s, char_map)?;
                     } else if !keep_substrings {
                         // range case! keep ranges (if there's none, that is fine)
-                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false);
+                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false)?;
                     } else {
                         // keep substrings should have already been mapped, so now bail and map with char-to-char
                         to_ret = map_string_char_to_char(s, char_map).unwrap();
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f2c8e2a..294e398 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -636,6 +636,41 @@ impl CharMap {
                     .insert(c.to_string(), cur_props.clone());
             }
         }
+        self.propagate_to_substrings();
+    }
+
+    /// where substrings need to be preserved, the mapping of a string contains the mappings of its
+    /// substrings, so these need to have the properties that are required of it
+    fn propagate_to_substrings(&mut self) {
+        let lits: Vec<String> = self.string_lit_props.keys().cloned().collect();
+        for outer in &lits {
+            if let StringSetProperties::Some {
+                len,
+                keep_ints,
+                keep_substrings: true,
+                ..
+            } = self.string_lit_props[outer]
+            {
+                for inner in lits.iter().filter(|s| *s != outer && outer.contains(*s)) {
+                    if let Some(
+                        inner_props @ StringSetProperties::Some {
+                            keep_substrings: true,
+                            ..
+                        },
+                    ) = self.string_lit_props.get_mut(inner)
+                    {
+                        *inner_props =
+                            inner_props.update_with_truths(StringSetProperties::Some {
+                                len,
+                                ranges: HashSet::new(),
+                                keep_ints,
+                                keep_substrings: true,
+                                keep_prefix_suffix: false,
+                            });
+                    }
+                }
+            }
+        }
     }
 
     /// get rid of strings that have their mid_strings remapped but aren't remapped themselves.
@@ -939,18 +974,6 @@ pub fn transform_ast(
                         );
                     }
                 } else {
-                    // if error while running no_reconstruct, restart with char_to_char
-                    if !char_map.char_to_char {
-                        // restart
-                        char_map.char_to_char = true;
-                        char_map.string_map.clear();
-                        replace_terms.clear();
-                        failed_mod_constraint_vars.clear();
-                        mod_constraint_vars.clear();
-                        // now, restart the loop
-                        var_index = 0;
-                        continue;
-                    }
                     failed_mod_constraint_vars.insert(sym);
                 }
             } else {
@@ -958,6 +981,21 @@ pub fn transform_ast(
             }
         }
         var_index += 1;
+        // if error while running no_reconstruct, restart with char_to_char
+        if !char_map.char_to_char
+            && (!failed_mod_constraint_vars.is_empty()
+                || (var_index == string_vars.len()
+                    && !string_mappings::respects_required_props(&char_map)))
+        {
+            // restart
+            char_map.char_to_char = true;
+            char_map.string_map.clear();
+            replace_terms.clear();
+            failed_mod_constraint_vars.clear();
+            mod_constraint_vars.clear();
+            // now, restart the loop
+            var_index = 0;
+        }
     }
 
     // if we were mapping strings, then at the end remap the range endpoints to their correct chars
-- 
2.43.0


From 8ce37eca7836f1a7e3e915242fcbabe95de8a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 15/53] fix: keep the text between digits when mapping strings
 with kept ints

---
 .../src/string_mappings.rs                    | 47 ++++++++++---------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index b26e6e2..21d4a5c 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -119,18 +119,19 @@ pub fn gen_string_keep_ranges(
 ) -> Result<String, StringMapError> {
     let mut to_ret = "".to_string();
     let mut cur_range: Option<&RangeParams> = None;
-    // iterate over the string to be mapped, character by character
+    let mut after_int = false; // was the last char kept as an int?
+                               // iterate over the string to be mapped, character by character
     for c in s.chars() {
         // if we're keeping ints (decimal)
         match (keep_ints, c.is_ascii_digit()) {
             (KeepInts::AsInts, true) => {
                 to_ret.push('0');
-                cur_range = None;
+                after_int = true;
                 continue;
             }
             (KeepInts::ExactInts, true) => {
                 to_ret.push(c);
-                cur_range = None;
+                after_int = true;
                 continue;
             }
             _ => {}
@@ -144,23 +145,25 @@ pub fn gen_string_keep_ranges(
             None => char::from_u32(char_map.non_range_start).unwrap(),
         };
         // are we reaching a new range?
-        if match (cur_range, new_range) {
-            (None, None) => false,
-            (None, _) => true,
-            (_, None) => true,
-            (
-                Some(RangeParams {
-                    start_char: s1,
-                    end_char: e1,
-                    ..
-                }),
-                Some(RangeParams {
-                    start_char: s2,
-                    end_char: e2,
-                    ..
-                }),
-            ) => !(s1 == s2 && e1 == e2),
-        } {
+        if std::mem::take(&mut after_int)
+            || match (cur_range, new_range) {
+                (None, None) => false,
+                (None, _) => true,
+                (_, None) => true,
+                (
+                    Some(RangeParams {
+                        start_char: s1,
+                        end_char: e1,
+                        ..
+                    }),
+                    Some(RangeParams {
+                        start_char: s2,
+                        end_char: e2,
+                        ..
+                    }),
+                ) => !(s1 == s2 && e1 == e2),
+            }
+        {
             cur_range = new_range;
             if !len_bool {
                 to_ret.push(next_char);
@@ -293,7 +296,9 @@ fn fix_repeated_string(
         to_ret.replace_range(
             retry_pos..(retry_pos + replaced_char.len_utf8()),
             &next_char.to_string().repeat(
-                if consider_substrings && (retry_ind == 0 || retry_ind + 1 == to_ret.chars().count()) {
+                if consider_substrings
+                    && (retry_ind == 0 || retry_ind + 1 == to_ret.chars().count())
+                {
                     // only repeat if not first/last char
                     1 // if we care about substrings
                 } else {
-- 
2.43.0


From f02b6c4c86a900ec4fd82286bf5a923e9eda19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 16/53] fix: require the string properties that char-level
 string functions depend on

re.range and re.allchar depend on the length; str.at, str.substr and functions
applied to intermediate terms take strings apart; str.to_code and str.from_code
depend on the actual characters.
---
 .../src/string_fcts.rs                        | 40 ++++++++++++++-----
 amzn-smt-string-transformer/src/transpiler.rs | 38 +++++++-----------
 .../src/transpiler_visitors.rs                |  7 +++-
 3 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 96329a3..9d6da33 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -162,6 +162,7 @@ impl StringFct {
             | Self::ReAll
             | Self::ReAllChar
             | Self::ReCompl
+            | Self::ReConcat
             | Self::ReDiff
             | Self::RefClosLexOrd
             | Self::ReIntersect
@@ -172,10 +173,8 @@ impl StringFct {
             | Self::ReOpt
             | Self::RePow
             | Self::ReUnion
-            | Self::SingStrAt
             | Self::ToCode
             | Self::ToInt
-            | Self::ToRe
             | Self::NO_OP => VarArgPositionCharSubstring::No,
             Self::IndexOf
             | Self::PrefixOf
@@ -183,12 +182,31 @@ impl StringFct {
             | Self::ReplaceAll
             | Self::ReplaceRe
             | Self::ReplaceReAll
-            | Self::SuffixOf => VarArgPositionCharSubstring::LeftMost,
-            Self::Contains | Self::Substr => VarArgPositionCharSubstring::RightMost,
-            Self::StrConcat | Self::ReConcat => VarArgPositionCharSubstring::Any,
+            | Self::SingStrAt
+            | Self::Substr
+            | Self::SuffixOf
+            | Self::ToRe => VarArgPositionCharSubstring::LeftMost,
+            Self::Contains => VarArgPositionCharSubstring::RightMost,
+            Self::StrConcat => VarArgPositionCharSubstring::Any,
         }
     }
 
+    /// does this function take strings apart, or build new ones, so that each character of all the
+    /// string literals in context needs to be considered as a substring, whatever its arguments are?
+    pub fn implies_char_substrings(&self) -> bool {
+        matches!(
+            self,
+            Self::IndexOf
+                | Self::Replace
+                | Self::ReplaceAll
+                | Self::ReplaceRe
+                | Self::ReplaceReAll
+                | Self::SingStrAt
+                | Self::StrConcat
+                | Self::Substr
+        )
+    }
+
     /// get the string properties that need to be maintained
     /// this is a function of the function (self) *and* the arguments
     pub fn get_required_props(&self, args: StringFctArgs) -> StringSetProperties {
@@ -199,7 +217,6 @@ impl StringFct {
             Self::Distinct
             | Self::StrEquality
             | Self::ReAll
-            | Self::ReAllChar
             | Self::ReCompl
             | Self::ReDiff
             | Self::ReIntersect
@@ -254,7 +271,7 @@ impl StringFct {
                     let mut range_set: HashSet<(char, char)> = HashSet::new();
                     range_set.insert((c1, c2));
                     set_props = set_props.update_with_truths(StringSetProperties::Some {
-                        len: false,
+                        len: true, // only single chars are in a range
                         ranges: range_set,
                         keep_ints: KeepInts::No,
                         keep_substrings: true, // specific chars matter with range
@@ -265,8 +282,9 @@ impl StringFct {
                     set_props = set_props.update_with_truths(StringSetProperties::Everything);
                 }
             }
-            // length-specific functions (loop and pow mean a specific number of repetitions)
-            Self::Len | Self::ReLoop | Self::RePow => {
+            // length-specific functions (loop and pow mean a specific number of repetitions,
+            // and allchar a single char)
+            Self::Len | Self::ReAllChar | Self::ReLoop | Self::RePow => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
@@ -286,7 +304,7 @@ impl StringFct {
                 })
             }
             // the actual value of digit chars are used as ints: maintain these chars as-is
-            Self::FromCode | Self::FromInt | Self::ToCode | Self::ToInt => {
+            Self::FromInt | Self::ToInt => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: false,
                     ranges: HashSet::new(),
@@ -308,7 +326,7 @@ impl StringFct {
 
             // if one of the terms is an application of a function we don't handle,
             // then we can't condense the strings at all
-            Self::LexOrd | Self::RefClosLexOrd => {
+            Self::FromCode | Self::LexOrd | Self::RefClosLexOrd | Self::ToCode => {
                 set_props = set_props.update_with_truths(StringSetProperties::Everything);
             }
         }
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 294e398..be9446a 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -207,29 +207,23 @@ fn string_consts_affected(
 pub fn char_level_substrings_required(
     arguments: &[Term],
     sfc: StringFct,
-    vars: &HashMap<ISymbol, ISymbol>,
+    vars: &BTreeSet<ISymbol>,
 ) -> HashSet<ISymbol> {
     let mut vars_substring_required: HashSet<ISymbol> = HashSet::new();
     match sfc.get_var_position_implies_char_substrings() {
         VarArgPositionCharSubstring::RightMost => {
             // check last arg in the list
             if let Some(Term::Variable(symbol)) = arguments.last() {
-                for val in vars.values() {
-                    if val == symbol.sym() {
-                        vars_substring_required.insert(symbol.sym().clone());
-                        break;
-                    }
+                if vars.contains(symbol.sym()) {
+                    vars_substring_required.insert(symbol.sym().clone());
                 }
             }
         }
         VarArgPositionCharSubstring::LeftMost => {
             // check first arg in the list
             if let Some(Term::Variable(symbol)) = arguments.first() {
-                for val in vars.values() {
-                    if val == symbol.sym() {
-                        vars_substring_required.insert(symbol.sym().clone());
-                        break;
-                    }
+                if vars.contains(symbol.sym()) {
+                    vars_substring_required.insert(symbol.sym().clone());
                 }
             }
         }
@@ -237,11 +231,8 @@ pub fn char_level_substrings_required(
             // check all args in the list
             for arg in arguments {
                 if let Term::Variable(symbol) = arg {
-                    for val in vars.values() {
-                        if val == symbol.sym() {
-                            vars_substring_required.insert(symbol.sym().clone());
-                            break;
-                        }
+                    if vars.contains(symbol.sym()) {
+                        vars_substring_required.insert(symbol.sym().clone());
                     }
                 }
             }
@@ -659,14 +650,13 @@ impl CharMap {
                         },
                     ) = self.string_lit_props.get_mut(inner)
                     {
-                        *inner_props =
-                            inner_props.update_with_truths(StringSetProperties::Some {
-                                len,
-                                ranges: HashSet::new(),
-                                keep_ints,
-                                keep_substrings: true,
-                                keep_prefix_suffix: false,
-                            });
+                        *inner_props = inner_props.update_with_truths(StringSetProperties::Some {
+                            len,
+                            ranges: HashSet::new(),
+                            keep_ints,
+                            keep_substrings: true,
+                            keep_prefix_suffix: false,
+                        });
                     }
                 }
             }
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 361e7d7..2f22698 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -45,7 +45,7 @@ pub struct IdentifyStringsBuilder {
     pub callgraph: CallGraph,
     /// mapping of symbols to new symbols (for alpha renaming)
     pub alpha_renaming_map: HashMap<ISymbol, ISymbol>,
-    /// list of original constraint variables that appear in a context that implies
+    /// list of variables that appear in (or represent) a context that implies
     /// that all characters in string literals used with are all characters need to be respected
     pub char_level_substring_vars: HashSet<ISymbol>,
 }
@@ -78,8 +78,11 @@ impl IdentifyStringsBuilder {
                 .extend(char_level_substrings_required(
                     op.args().cloned().collect::<Vec<Term>>().as_slice(),
                     sfc,
-                    &self.alpha_renaming_map,
+                    &self.string_var_list,
                 ));
+            if sfc.implies_char_substrings() {
+                self.char_level_substring_vars.insert(var_sym.clone());
+            }
             for arg in op.args() {
                 if let Term::Variable(identifier) = arg {
                     let ident_sym = identifier.sym();
-- 
2.43.0


From 2f742f89894420763e1f5978e0a1cfc65dad8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 17/53] fix: map the characters that string literals denote,
 not their escape sequences

Escape sequences were mapped character by character, which changed the length of
the strings, and mapped characters outside of printable ASCII were printed raw.
---
 amzn-smt-string-transformer/src/transpiler.rs | 49 ++++++++++++++++++-
 .../src/transpiler_visitors.rs                |  2 +
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index be9446a..a6dfaf9 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -300,6 +300,51 @@ fn construct_mapping(
     Ok(string_map)
 }
 
+/// get the string denoted by an SMTLIB string literal, i.e. decode its escape sequences
+/// (`\u{X}` with 1 to 5 hex digits, or `\uXXXX`)
+pub fn decode_escapes(literal: &str) -> String {
+    let mut decoded = String::with_capacity(literal.len());
+    let mut rest = literal;
+    while let Some(pos) = rest.find("\\u") {
+        decoded.push_str(&rest[..pos]);
+        let after = &rest[pos + 2..];
+        let (digits, len) = match after.strip_prefix('{') {
+            Some(braced) => match braced.find('}') {
+                Some(end) if end <= 5 => (&braced[..end], end + 2),
+                _ => ("", 0),
+            },
+            None => (after.get(..4).unwrap_or(""), 4),
+        };
+        let is_hex = digits.chars().all(|c| c.is_ascii_hexdigit());
+        match u32::from_str_radix(digits, 16)
+            .ok()
+            .and_then(char::from_u32)
+        {
+            Some(c) if is_hex && c <= '\u{2ffff}' => {
+                decoded.push(c);
+                rest = &after[len..];
+            }
+            _ => {
+                // not an escape sequence
+                decoded.push_str("\\u");
+                rest = after;
+            }
+        }
+    }
+    decoded.push_str(rest);
+    decoded
+}
+
+/// get an SMTLIB string literal denoting the given string, with escape sequences where required
+pub fn encode_escapes(s: &str) -> String {
+    s.chars()
+        .map(|c| match c {
+            ' '..='~' if c != '\\' && c != '"' => c.to_string(),
+            _ => format!("\\u{{{:x}}}", c as u32),
+        })
+        .collect()
+}
+
 struct StringSwapper {
     string_map: HashMap<String, String>,
 }
@@ -309,7 +354,9 @@ impl IntraLogicFolder<ALL> for StringSwapper {
 
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
         Ok(match constant.as_ref() {
-            Constant::String(s) => Constant::String(self.string_map[s.as_str()].clone()).into(),
+            Constant::String(s) => {
+                Constant::String(encode_escapes(&self.string_map[s.as_str()])).into()
+            }
             _ => constant.into(),
         })
     }
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 2f22698..9b0904a 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -261,7 +261,9 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// if it's a string constant, add it to the list of string constants
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
         if let Constant::String(s) = constant.as_ref() {
+            let s = decode_escapes(s);
             self.string_consts.insert(s.clone());
+            return Ok(Term::Constant(Constant::String(s).into()));
         }
         Ok(Term::Constant(constant))
     }
-- 
2.43.0


From 99bbb47fb9f6c45e4dce8c2906d09da88ec94eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 18/53] fix: keep overlapping character ranges contiguous

Ranges that overlap were mapped apart from each other, and overwrote each other's
endpoints, so that the mapped ranges could be empty or lose the kept ints.
---
 amzn-smt-string-transformer/src/transpiler.rs | 96 +++++++++++++++----
 1 file changed, 77 insertions(+), 19 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index a6dfaf9..d5d2665 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -512,6 +512,16 @@ impl CharMap {
         false
     }
 
+    /// add a range, with the characters its endpoints map to
+    fn add_range(&mut self, start: u32, end: u32, mapped_start: u32, mapped_end: u32) {
+        let [start, end, mapped_start_char, mapped_end] =
+            [start, end, mapped_start, mapped_end].map(|c| char::from_u32(c).unwrap());
+        self.ranges
+            .push(RangeParams::new(start, end, mapped_start + 1));
+        self.char_map.insert(start, mapped_start_char);
+        self.char_map.insert(end, mapped_end);
+    }
+
     /// get the range that the given character is in (None if not in a range)
     pub fn get_range_for_char(&self, c: char) -> Option<&RangeParams> {
         self.ranges
@@ -851,28 +861,76 @@ fn initialize_charmap_with_ranges(
         }
     }
 
-    // if we hit an int range and it's already been mapped, no problem
-    // that range will just be skipped
-    for (c1, c2) in ranges {
-        if !char_map.has_range(c1, c2) {
-            let orig_offset = offset;
-            let cur_range = RangeParams::new(c1, c2, offset + 1);
-            char_map
-                .char_map
-                .insert(c1, char::from_u32(offset).unwrap());
-            offset += (c2 as u32) - (c1 as u32);
-            for illegal_char in &char_map.illegal_chars {
-                if (*illegal_char as u32) <= offset && (*illegal_char as u32) > orig_offset {
-                    offset += 1;
-                    break;
+    // ranges can overlap: cut them at each other's endpoints, so that each is a contiguous sequence of
+    // disjoint ranges. if ints are kept, their range is already there, and overlaps with it too
+    let int_range = char_map.ranges.pop();
+    ranges.extend(int_range.iter().map(|r| (r.start_char, r.end_char)));
+    let starts: BTreeSet<u32> = ranges
+        .iter()
+        .flat_map(|(c1, c2)| [*c1 as u32, *c2 as u32 + 1])
+        .collect();
+    let is_covered = |c: u32| {
+        ranges
+            .iter()
+            .any(|(c1, c2)| (*c1 as u32..=*c2 as u32).contains(&c))
+    };
+    let mut pieces: Vec<(u32, u32)> = starts
+        .iter()
+        .zip(starts.iter().skip(1))
+        .map(|(start, next)| (*start, *next - 1))
+        .filter(|(start, _)| is_covered(*start))
+        .collect();
+
+    // kept ints can't move, so neither can what is contiguous with them
+    if let Some(r) = int_range {
+        let (mut first, mut last) = (r.start_char as u32, r.end_char as u32);
+        for (start, end) in pieces.iter().rev() {
+            if *end + 1 == first {
+                first = *start;
+            }
+        }
+        for (start, end) in &pieces {
+            if *start == last + 1 {
+                last = *end;
+            }
+        }
+        for c in (first..=last).filter_map(char::from_u32) {
+            if !c.is_ascii_digit() {
+                char_map.char_map.insert(c, c);
+            }
+        }
+        pieces.retain(|(start, end)| {
+            let fixed = first <= *start && *end <= last;
+            if fixed {
+                char_map.add_range(*start, *end, *start, *end);
+            }
+            !fixed
+        });
+        offset = last + 1;
+    }
+
+    for index in 0..pieces.len() {
+        let (start, end) = pieces[index];
+        if index == 0 || pieces[index - 1].1 + 1 != start {
+            // the start of a contiguous sequence: it needs to map to usable chars only
+            let mut last = end;
+            for (next_start, next_end) in &pieces[index..] {
+                if *next_start == last + 1 {
+                    last = *next_end;
+                }
+            }
+            let mut illegal_chars: Vec<u32> =
+                char_map.illegal_chars.iter().map(|c| *c as u32).collect();
+            illegal_chars.sort_unstable();
+            for illegal_char in illegal_chars {
+                if (offset..=offset + (last - start)).contains(&illegal_char) {
+                    offset = illegal_char + 1;
                 }
             }
-            char_map
-                .char_map
-                .insert(c2, char::from_u32(offset).unwrap());
-            offset += 1;
-            char_map.ranges.push(cur_range);
         }
+        let mapped_end = offset + (end - start);
+        char_map.add_range(start, end, offset, mapped_end);
+        offset = mapped_end + 1;
     }
     offset
 }
-- 
2.43.0


From 5d0578dc02da79c07ff3dd104dee643b353d77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 19/53] fix: reconstruct different characters from different
 characters

All characters of a range that nothing mapped to were mapped back to one character,
characters that were mapped away were kept as they are in models, and escape
sequences were mapped back character by character.
---
 .../src/reconstruct_tools.rs                  |  9 ++----
 amzn-smt-string-transformer/src/transpiler.rs | 28 +++++++++----------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index 2346589..204beba 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -4,6 +4,7 @@
 //! option
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
+use crate::transpiler::{decode_escapes, encode_escapes};
 use crate::{mapping_tools, Command, Term};
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::smt2parser::CommandStream;
@@ -190,14 +191,10 @@ pub fn build_string_var_assertions(
         let var_name_str = &var_name.0;
         if new_map.affected_constraint_vars.contains(var_name_str) {
             let reconstructed = reconstruct_string(
-                const_str.chars().collect::<Vec<char>>(),
+                decode_escapes(const_str).chars().collect::<Vec<char>>(),
                 new_map.get_re_map(),
             );
 
-            // the solver doesn't play well with '\u{0}', it seems to be represented as \x00 so just
-            // replace it with this
-            let reconstructed = reconstructed.replace('\u{0}', "\\x00");
-
             let un_alpha_map = new_map.get_un_alpha_map();
             let var_name = match un_alpha_map.get(var_name_str) {
                 Some(un_alpha_name) => ISymbol::from(un_alpha_name.as_str()),
@@ -206,7 +203,7 @@ pub fn build_string_var_assertions(
 
             let new_assert = crate::transpiler_visitors::new_assert_equal(
                 var_name,
-                &Term::Constant(Constant::String(reconstructed).into()),
+                &Term::Constant(Constant::String(encode_escapes(&reconstructed)).into()),
             );
             return Some(new_assert);
         }
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index d5d2665..5203720 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -937,7 +937,8 @@ fn initialize_charmap_with_ranges(
 
 /// populate the rest of the ranges.
 /// we'll just map the characters in the mapped range to one of the unused range chars
-/// the purpose: so when we remap, everything in the range gets mapped back to the range
+/// the purpose: so when we remap, everything in the range gets mapped back to the range,
+/// and different characters get mapped back to different characters
 /// (this is really only relevant for char-to-char remapping)
 fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
     let mut char_vec = char_map
@@ -948,26 +949,25 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
 
     for range in char_map.ranges.iter() {
         let mut offset = range.cur_offset; // start offset
-        let mut placeholder_char = range.start_char;
-        let mut found_char = false;
         for range_char in range.start_char..range.end_char {
             if char_map.char_map.get(&range_char).is_none() {
-                if char_map
-                    .illegal_chars
-                    .contains(&char::from_u32(offset).unwrap())
-                {
-                    offset += 1;
-                }
-                if !found_char {
-                    placeholder_char = range_char;
-                    found_char = true;
-                }
-                char_vec.push((placeholder_char, char::from_u32(offset).unwrap()));
+                char_vec.push((range_char, char::from_u32(offset).unwrap()));
                 offset += 1;
             }
         }
     }
 
+    // a model can use characters that nothing is mapped to: those stay as they are, unless they have
+    // been mapped to something else, in which case they need some other unused character
+    let originals: BTreeSet<char> = char_vec.iter().map(|(c, _)| *c).collect();
+    let mapped: BTreeSet<char> = char_vec.iter().map(|(_, c)| *c).collect();
+    char_vec.extend(
+        mapped
+            .difference(&originals)
+            .cloned()
+            .zip(originals.difference(&mapped).cloned()),
+    );
+
     char_vec
 }
 
-- 
2.43.0


From 81f0dfb23ade6b8fad18880b09766ce60aa03c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 20/53] fix: keep sort and datatype declarations in front of
 the constants that use them

---
 amzn-smt-string-transformer/src/transpiler.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 5203720..1a6080d 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -995,7 +995,13 @@ pub fn transform_ast(
         commands.into_iter().partition(|c| {
             matches!(
                 c,
-                Command::SetLogic { .. } | Command::SetInfo { .. } | Command::SetOption { .. }
+                Command::SetLogic { .. }
+                    | Command::SetInfo { .. }
+                    | Command::SetOption { .. }
+                    | Command::DeclareSort { .. }
+                    | Command::DefineSort { .. }
+                    | Command::DeclareDatatype { .. }
+                    | Command::DeclareDatatypes { .. }
             )
         });
 
-- 
2.43.0


From 900b269da1b6c9a8feb4f2565184779b39c28a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 21/53] fix: rename function applications, definitions and
 bound variables along with the declarations

---
 .../src/transpiler_visitors.rs                | 107 ++++++++++++++++--
 1 file changed, 97 insertions(+), 10 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 9b0904a..fc4aba1 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,7 +12,9 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar};
+use aws_smt_ir::{
+    CoreOp, FunctionDec, IConst, ILet, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier, IUF, UF,
+};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -48,10 +50,32 @@ pub struct IdentifyStringsBuilder {
     /// list of variables that appear in (or represent) a context that implies
     /// that all characters in string literals used with are all characters need to be respected
     pub char_level_substring_vars: HashSet<ISymbol>,
+    /// number of new names that were given to declared and defined symbols
+    num_renamed: usize,
+    /// number of new names that were given to bound variables
+    num_bound: usize,
+    /// bound variables in scope, and their new names (innermost last)
+    bound_vars: Vec<(ISymbol, ISymbol)>,
 }
 
 /// member functions for the IdentifyStringsBuilder struct
 impl IdentifyStringsBuilder {
+    /// rename a declared or defined symbol
+    fn rename_symbol(&mut self, symbol: ISymbol) -> ISymbol {
+        let new_sym = ISymbol::from(format!("a{}", self.num_renamed));
+        self.num_renamed += 1;
+        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        new_sym
+    }
+
+    /// bring a bound variable into scope, under a new name
+    fn bind(&mut self, symbol: ISymbol) -> ISymbol {
+        let new_sym = ISymbol::from(format!("b{}", self.num_bound));
+        self.num_bound += 1;
+        self.bound_vars.push((symbol, new_sym.clone()));
+        new_sym
+    }
+
     /// create the decl-const for a new var with the specified name
     fn new_var_decl_const(new_var_name: ISymbol, new_var_type: IdentType) -> Command {
         let new_sort = Sort::Simple {
@@ -128,8 +152,8 @@ impl IdentifyStringsBuilder {
                 non_string_arguments = true;
             }
         }
-        if non_string_arguments && sfc == StringFct::StrEquality {
-            // if it's equality, it might not be over strings
+        if non_string_arguments && matches!(sfc, StringFct::StrEquality | StringFct::Distinct) {
+            // if it's (in)equality, it might not be over strings
             // only proceed if all args are strings or some of our created string vars
             return None;
         }
@@ -199,9 +223,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// these are all the original variables in the query
     /// rename them to aX (where X is an int referring to this being the nth var declared)
     fn fold_declare_const(&mut self, symbol: ISymbol, sort: ISort) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
-        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        let new_sym = self.rename_symbol(symbol);
 
         // if it's a string var add it to the list of string vars and the callgraph
         if sort.get_type() == IdentType::StringType {
@@ -226,9 +248,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         parameters: Vec<ISort>,
         sort: ISort,
     ) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
-        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        let new_sym = self.rename_symbol(symbol);
 
         // if it's a string var add it to the list of string vars and the callgraph
         if sort.get_type() == IdentType::StringType {
@@ -247,11 +267,78 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(out)
     }
 
+    /// visit function definitions
+    /// rename them like the constants, and rename their parameters
+    fn fold_define_fun(&mut self, sig: FunctionDec, body: Term) -> Result<Command, Self::Error> {
+        let scope = self.bound_vars.len();
+        let parameters = sig
+            .parameters
+            .into_iter()
+            .map(|(sym, sort)| (self.bind(sym), sort))
+            .collect();
+        let term = self.fold_term(body)?;
+        self.bound_vars.truncate(scope);
+        let name = self.rename_symbol(sig.name);
+        let sig = FunctionDec {
+            name,
+            parameters,
+            result: sig.result,
+        };
+        Ok(Command::DefineFun { sig, term })
+    }
+
+    /// visit applications of declared and defined functions, which are renamed
+    fn fold_uninterpreted_func(&mut self, uf: IUF<ALL>) -> Result<Term, Self::Error> {
+        let args = uf.args.iter().cloned().map(|arg| self.fold_term(arg));
+        let args = args.collect::<Result<_, _>>()?;
+        let func = self.alpha_renaming_map.get(&uf.func).unwrap_or(&uf.func);
+        let func = func.clone();
+        Ok(Term::UF(UF { func, args }.into()))
+    }
+
+    /// visit let binders, and rename the bound variables
+    fn fold_let(&mut self, l: ILet<ALL>) -> Result<Term, Self::Error> {
+        let terms = l
+            .bindings
+            .iter()
+            .map(|(_, term)| self.fold_term(term.clone()));
+        let terms = terms.collect::<Result<Vec<_>, _>>()?;
+        let scope = self.bound_vars.len();
+        let mut bindings = Vec::with_capacity(terms.len());
+        for ((sym, _), term) in l.bindings.iter().zip(terms) {
+            bindings.push((self.bind(sym.clone()), term));
+        }
+        let term = self.fold_term(l.term.clone());
+        self.bound_vars.truncate(scope);
+        let term = term?;
+        Ok(Term::Let(Let { bindings, term }.into()))
+    }
+
+    /// visit quantifiers, and rename the bound variables
+    fn fold_quantifier(&mut self, quantifier: IQuantifier<ALL>) -> Result<Term, Self::Error> {
+        let scope = self.bound_vars.len();
+        let (Quantifier::Forall(vars, body) | Quantifier::Exists(vars, body)) = quantifier.as_ref();
+        let vars = vars
+            .iter()
+            .map(|(sym, sort)| (self.bind(sym.clone()), sort.clone()))
+            .collect();
+        let body = self.fold_term(body.clone());
+        self.bound_vars.truncate(scope);
+        let body = body?;
+        let quantifier = match quantifier.as_ref() {
+            Quantifier::Forall(..) => Quantifier::Forall(vars, body),
+            Quantifier::Exists(..) => Quantifier::Exists(vars, body),
+        };
+        Ok(Term::Quantifier(quantifier.into()))
+    }
+
     /// visit symbols
     /// if the symbol is one of the variables we have renamed, then
     /// replace it with the new name
     fn fold_var(&mut self, v: IVar) -> Result<Term, Self::Error> {
-        if let Some(sym) = self.alpha_renaming_map.get(v.sym()) {
+        let bound = self.bound_vars.iter().rev().find(|(sym, _)| sym == v.sym());
+        let new_sym = bound.map(|(_, new_sym)| new_sym);
+        if let Some(sym) = new_sym.or_else(|| self.alpha_renaming_map.get(v.sym())) {
             return Ok(sym.clone().into());
         }
         Ok(v.into())
-- 
2.43.0


From 6c01ce5bdf426d4552b785ca0ec37653e35a99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 22/53] fix: bail out when strings are used in contexts that
 the call graph does not track

---
 .../src/string_fcts.rs                        |  10 ++
 amzn-smt-string-transformer/src/transpiler.rs |   4 +
 .../src/transpiler_visitors.rs                | 134 +++++++++++++++++-
 3 files changed, 145 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 9d6da33..715bb5d 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -207,6 +207,16 @@ impl StringFct {
         )
     }
 
+    /// is the argument at the given position an integer?
+    pub fn is_int_argument(&self, position: usize) -> bool {
+        match self {
+            Self::FromCode | Self::FromInt => true,
+            Self::SingStrAt | Self::Substr => position > 0,
+            Self::IndexOf => position == 2,
+            _ => false,
+        }
+    }
+
     /// get the string properties that need to be maintained
     /// this is a function of the function (self) *and* the arguments
     pub fn get_required_props(&self, args: StringFctArgs) -> StringSetProperties {
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 1a6080d..29623fd 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -1131,6 +1131,10 @@ pub fn transform_ast(
         }
     }
 
+    // bail out if strings are used in contexts in which they can't be mapped
+    let unsupported = identify_builder.unsupported();
+    failed_mod_constraint_vars.extend(&unsupported);
+
     // map of original to renamed variable names
     let alpha_renaming_map = identify_builder.alpha_renaming_map;
 
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index fc4aba1..ceebe54 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,8 +12,10 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
+use aws_smt_ir::visit::{ControlFlow, Visit, Visitor};
 use aws_smt_ir::{
-    CoreOp, FunctionDec, IConst, ILet, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier, IUF, UF,
+    CoreOp, FunctionDec, IConst, ILet, IMatch, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier,
+    IUF, UF,
 };
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -56,6 +58,24 @@ pub struct IdentifyStringsBuilder {
     num_bound: usize,
     /// bound variables in scope, and their new names (innermost last)
     bound_vars: Vec<(ISymbol, ISymbol)>,
+    /// variables (or functions, where no variable is involved) that are used in contexts in which
+    /// strings can't be mapped, since the callgraph does not keep track of them
+    unsupported: BTreeSet<ISymbol>,
+}
+
+/// visitor that looks for bound variables (by their new names)
+struct BoundVarFinder<'a>(&'a [(ISymbol, ISymbol)]);
+
+impl Visitor<ALL> for BoundVarFinder<'_> {
+    type BreakTy = ();
+
+    fn visit_var(&mut self, var: &IVar) -> ControlFlow<()> {
+        if self.0.iter().any(|(_, new_sym)| new_sym == var.sym()) {
+            ControlFlow::Break(())
+        } else {
+            ControlFlow::CONTINUE
+        }
+    }
 }
 
 /// member functions for the IdentifyStringsBuilder struct
@@ -76,6 +96,51 @@ impl IdentifyStringsBuilder {
         new_sym
     }
 
+    /// is this term a string literal, or a variable that represents a string or a regex?
+    fn is_string_atom(&self, t: &Term) -> bool {
+        match t {
+            Term::Constant(c) => matches!(c.as_ref(), Constant::String(_)),
+            Term::Variable(v) if self.string_var_list.contains(v.sym()) => {
+                let defn = self.string_var_defn_map.get(v.sym());
+                let sfc = defn
+                    .and_then(|t| t.op())
+                    .and_then(|op| op.func().string_fct());
+                sfc.map_or(true, |sfc| {
+                    matches!(
+                        sfc.string_fct_return_type(),
+                        IdentType::StringType | IdentType::RegexStringType
+                    )
+                })
+            }
+            _ => false,
+        }
+    }
+
+    /// strings can't be mapped if they are (part of) the given term: find the variables to blame
+    fn mark_unsupported<'a>(&mut self, func: ISymbol, args: impl IntoIterator<Item = &'a Term>) {
+        let vars: Vec<ISymbol> = args
+            .into_iter()
+            .filter_map(|arg| match arg {
+                Term::Variable(v) => Some(v.sym().clone()),
+                _ => None,
+            })
+            .collect();
+        if vars.is_empty() {
+            self.unsupported.insert(func);
+        }
+        self.unsupported.extend(vars);
+    }
+
+    /// get the variables (or functions) that prevent the strings from being mapped
+    pub fn unsupported(&self) -> BTreeSet<ISymbol> {
+        if self.string_consts.is_empty() {
+            // there is nothing to map
+            BTreeSet::new()
+        } else {
+            self.unsupported.clone()
+        }
+    }
+
     /// create the decl-const for a new var with the specified name
     fn new_var_decl_const(new_var_name: ISymbol, new_var_type: IdentType) -> Command {
         let new_sort = Sort::Simple {
@@ -126,6 +191,16 @@ impl IdentifyStringsBuilder {
         }
     }
 
+    /// make sure that a function application which is not processed does not involve strings
+    fn check_other_fct(&mut self, t: Term) -> Term {
+        if let Some(op) = t.op() {
+            if op.args().any(|arg| self.is_string_atom(arg)) {
+                self.mark_unsupported(op.func(), op.args());
+            }
+        }
+        t
+    }
+
     /// process a string function application: if it's not already computed,
     /// then make a new var and add new decl-const and asserts where needed
     /// for example:
@@ -158,6 +233,27 @@ impl IdentifyStringsBuilder {
             return None;
         }
 
+        // the callgraph only keeps track of literals and variables, and
+        // bound variables don't exist where the new var is initialized
+        let untracked = t.op().map_or(false, |op| {
+            op.args().enumerate().any(|(i, arg)| match arg {
+                _ if sfc.is_int_argument(i) => false,
+                Term::Constant(_) => false,
+                Term::Variable(v) => {
+                    !self.string_var_list.contains(v.sym()) && v.sym().string_fct().is_none()
+                }
+                _ => true,
+            })
+        });
+        if untracked
+            || t.visit_with(&mut BoundVarFinder(&self.bound_vars))
+                .is_break()
+        {
+            if let Some(op) = t.op() {
+                self.mark_unsupported(op.func(), op.args());
+            }
+        }
+
         // add new_var to the list of new vars, storing this string function
         let len = self.const_map.len();
         let var_sym = match self.const_map.entry(t.clone()) {
@@ -212,10 +308,10 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
                     // now, replace the string function term with the new var
                     Ok(Term::Variable(new_var_sym.into()))
                 }
-                None => Ok(t),
+                None => Ok(self.check_other_fct(t)),
             }
         } else {
-            Ok(t)
+            Ok(self.check_other_fct(t))
         }
     }
 
@@ -279,6 +375,9 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         let term = self.fold_term(body)?;
         self.bound_vars.truncate(scope);
         let name = self.rename_symbol(sig.name);
+        if self.is_string_atom(&term) {
+            self.mark_unsupported(name.clone(), [&term]);
+        }
         let sig = FunctionDec {
             name,
             parameters,
@@ -287,6 +386,26 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(Command::DefineFun { sig, term })
     }
 
+    /// recursive functions are not supported
+    fn fold_define_fun_rec(
+        &mut self,
+        sig: FunctionDec,
+        term: Term,
+    ) -> Result<Command, Self::Error> {
+        self.unsupported.insert(sig.name.clone());
+        Ok(Command::DefineFunRec { sig, term })
+    }
+
+    /// recursive functions are not supported
+    fn fold_define_funs_rec(
+        &mut self,
+        funs: Vec<(FunctionDec, Term)>,
+    ) -> Result<Command, Self::Error> {
+        self.unsupported
+            .extend(funs.iter().map(|(sig, _)| sig.name.clone()));
+        Ok(Command::DefineFunsRec { funs })
+    }
+
     /// visit applications of declared and defined functions, which are renamed
     fn fold_uninterpreted_func(&mut self, uf: IUF<ALL>) -> Result<Term, Self::Error> {
         let args = uf.args.iter().cloned().map(|arg| self.fold_term(arg));
@@ -306,6 +425,9 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         let scope = self.bound_vars.len();
         let mut bindings = Vec::with_capacity(terms.len());
         for ((sym, _), term) in l.bindings.iter().zip(terms) {
+            if self.is_string_atom(&term) {
+                self.mark_unsupported(sym.clone(), [&term]);
+            }
             bindings.push((self.bind(sym.clone()), term));
         }
         let term = self.fold_term(l.term.clone());
@@ -314,6 +436,12 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(Term::Let(Let { bindings, term }.into()))
     }
 
+    /// match binders are not supported
+    fn fold_match(&mut self, m: IMatch<ALL>) -> Result<Term, Self::Error> {
+        self.unsupported.insert("match".into());
+        Ok(Term::Match(m))
+    }
+
     /// visit quantifiers, and rename the bound variables
     fn fold_quantifier(&mut self, quantifier: IQuantifier<ALL>) -> Result<Term, Self::Error> {
         let scope = self.bound_vars.len();
-- 
2.43.0


From 8d9d18d5ea5dfb3ec96c235d18c47f2085f6ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 23/53] fix: measure strings in characters, not in bytes

---
 amzn-smt-string-transformer/src/string_fcts.rs     | 2 +-
 amzn-smt-string-transformer/src/string_mappings.rs | 4 ++--
 amzn-smt-string-transformer/src/transpiler.rs      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 715bb5d..6b1ff6d 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -131,7 +131,7 @@ impl StringFct {
             Self::ReRange => {
                 // we're only handling range between two hardcoded single-char strings
                 if let [s1, s2] = lits {
-                    if s2.len() == 1 && s1.len() == 1 {
+                    if s2.chars().count() == 1 && s1.chars().count() == 1 {
                         let c1 = s1.chars().next().unwrap();
                         let c2 = s2.chars().next().unwrap();
                         return StringFctArgs::ReRange(
diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 21d4a5c..fce8f5b 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -431,7 +431,7 @@ pub fn gen_string_keep_substrings(
     };
     if s.is_empty() {
         return Ok(s.to_string()); // empty string always maps to itself
-    } else if s.len() == 1 {
+    } else if s.chars().count() == 1 {
         // if we're a range endpoint, just return the char mapping
         for r in &char_map.ranges {
             if r.start_char.to_string() == *s || r.end_char.to_string() == *s {
@@ -831,7 +831,7 @@ pub fn map_string_no_reconstruct(
             let mut to_ret = s.to_string();
             if s.is_empty() {
                 return Ok(s.to_string());
-            } else if s.len() == 1 {
+            } else if s.chars().count() == 1 {
                 // if we're a range endpoint, just return the char mapping
                 // but we don't want to add this to the string map, bc we don't want
                 // it to be represented in the substring computations
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 29623fd..cf3661f 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -555,7 +555,7 @@ impl CharMap {
         for i in (1..std::cmp::min(s1.len(), s2.len())).rev() {
             // if they're never not equal then the entire string
             // is contained, so already in the map (return None)
-            if s1[0..i] == s2[s2.len() - i..s2.len()] {
+            if s1.is_char_boundary(i) && s2.ends_with(&s1[0..i]) {
                 return Some(&s1[0..i]);
             }
         }
-- 
2.43.0


From fbfbbc2b1e0d8e1311d45d29ba01214a1ff1ab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 24/53] fix: don't map character ranges into or across the
 surrogate code points

---
 amzn-smt-string-transformer/src/string_fcts.rs | 9 +++++----
 amzn-smt-string-transformer/src/transpiler.rs  | 3 +++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 6b1ff6d..a640e0b 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -134,10 +134,11 @@ impl StringFct {
                     if s2.chars().count() == 1 && s1.chars().count() == 1 {
                         let c1 = s1.chars().next().unwrap();
                         let c2 = s2.chars().next().unwrap();
-                        return StringFctArgs::ReRange(
-                            std::cmp::min(c1, c2),
-                            std::cmp::max(c1, c2),
-                        );
+                        let (c1, c2) = (std::cmp::min(c1, c2), std::cmp::max(c1, c2));
+                        // there are no chars for the surrogate code points
+                        if c2 <= '\u{d7ff}' || c1 >= '\u{e000}' {
+                            return StringFctArgs::ReRange(c1, c2);
+                        }
                     }
                 }
                 StringFctArgs::NoArgs
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index cf3661f..371c695 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -919,6 +919,9 @@ fn initialize_charmap_with_ranges(
                     last = *next_end;
                 }
             }
+            if offset < 0xd800 && offset + (last - start) >= 0xd800 {
+                offset = 0xe000; // skip the surrogate code points
+            }
             let mut illegal_chars: Vec<u32> =
                 char_map.illegal_chars.iter().map(|c| *c as u32).collect();
             illegal_chars.sort_unstable();
-- 
2.43.0


From a4d4ecc3f08acb19d09c33e70ac11766be8387c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 25/53] fix: bail out instead of panicking when a literal is
 not in the callgraph

---
 amzn-smt-string-transformer/src/transpiler.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 371c695..6bccc9c 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -30,7 +30,6 @@ use aws_smt_ir::{
     fold::Fold, logic::ALL, Command as IRCommand, ISymbol, ParseError, Script, Term as IRTerm,
 };
 use std::collections::{BTreeSet, HashMap, HashSet};
-use std::convert::Infallible;
 
 type Term = IRTerm<ALL>;
 type Command = IRCommand<Term>;
@@ -349,13 +348,18 @@ struct StringSwapper {
     string_map: HashMap<String, String>,
 }
 
+/// error in swapping strings: a string that is not in the map
+/// (it is part of a subterm that the callgraph does not keep track of)
+struct UnmappedString;
+
 impl IntraLogicFolder<ALL> for StringSwapper {
-    type Error = Infallible;
+    type Error = UnmappedString;
 
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
         Ok(match constant.as_ref() {
             Constant::String(s) => {
-                Constant::String(encode_escapes(&self.string_map[s.as_str()])).into()
+                let mapped = self.string_map.get(s.as_str()).ok_or(UnmappedString)?;
+                Constant::String(encode_escapes(mapped)).into()
             }
             _ => constant.into(),
         })
@@ -365,10 +369,7 @@ impl IntraLogicFolder<ALL> for StringSwapper {
 /// function to swap out the strings as described in the string_map
 fn replace_args_in_term(string_map: HashMap<String, String>, var_defn: &Term) -> Option<Term> {
     if var_defn.op().is_some() {
-        match var_defn.fold_with(&mut StringSwapper { string_map }) {
-            Ok(t) => Some(t),
-            Err(e) => match e {},
-        }
+        var_defn.fold_with(&mut StringSwapper { string_map }).ok()
     } else {
         None
     }
-- 
2.43.0


From c4927d7f94b19024f5e215c2b2e0485d2dbb56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 26/53] fix: keep the properties of literals that are also
 common prefixes and suffixes

---
 amzn-smt-string-transformer/src/transpiler.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 6bccc9c..5530b22 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -596,10 +596,15 @@ impl CharMap {
                                 Self::get_prefix_suffix(string_lit, sub_string_lit)
                             {
                                 if !new_rel_string.is_empty() {
-                                    suffix_prefixes.insert(
-                                        new_rel_string.to_string(),
-                                        sub_props.clone().update_with_truths(props.clone()),
-                                    );
+                                    // it can be a literal, or be implied by other ones, as well
+                                    let new_props = suffix_prefixes
+                                        .get(new_rel_string)
+                                        .or_else(|| self.string_lit_props.get(new_rel_string))
+                                        .unwrap_or(sub_props)
+                                        .clone()
+                                        .update_with_truths(sub_props.clone())
+                                        .update_with_truths(props.clone());
+                                    suffix_prefixes.insert(new_rel_string.to_string(), new_props);
                                 }
                             }
                         }
-- 
2.43.0


From 620b250974067671aa2e81a1f81301f67344081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 27/53] fix: normalize the variable names of subformulas

---
 amzn-smt-string-transformer/src/subformula_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5df5c1d..ae4fabd 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -202,6 +202,7 @@ impl IntraLogicFolder<ALL> for VariableNameNormalizer {
     fn fold_term(&mut self, term: Term) -> Result<Term, Self::Error> {
         match term {
             Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => term.super_fold_with(self),
+            Term::Variable(var) => self.fold_var(var),
             _ => Ok(term),
         }
     }
-- 
2.43.0


From e9fba184adc0ddc8b9778f9e02544f995e92faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 28/53] fix: don't index past the end of a script of set-option
 commands

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 6e1fe22..0e0c232 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -234,7 +234,7 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
             "QF_S"
         };
         let mut i = 0;
-        while let Command::SetOption { .. } = v[i] {
+        while let Some(Command::SetOption { .. }) = v.get(i) {
             i += 1;
         }
         v.insert(
-- 
2.43.0


From ff833acf04dabb72c00e755938c9d3d0ee6b484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 29/53] fix: guess a logic with arithmetic when the script uses
 arithmetic

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 0e0c232..dd6ce90 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -8,7 +8,7 @@ use aws_smt_ir::fold::IntraLogicFolder;
 use aws_smt_ir::fold::SuperFold;
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::{fold::Fold, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm};
-use aws_smt_ir::{IConst, ISymbol, IVar, Index, IUF};
+use aws_smt_ir::{IConst, IOp, ISymbol, IVar, Index, IUF};
 
 use std::convert::Infallible;
 use std::convert::TryInto;
@@ -200,14 +200,18 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
 
                 StringOp::ReLoop(indices, t.args[0].clone()).into()
             }
-            "+" | "-" | ">" | "<" | ">=" | "<=" | "*" => {
-                self.has_arith = true;
-                t.into()
-            }
             _ => t.into(),
         })
     }
 
+    /// visit theory operations, which include the arithmetic ones
+    fn fold_theory_op(&mut self, op: IOp<ALL>) -> Result<Term, Self::Error> {
+        if let all::Op::Arith(_) = op.as_ref() {
+            self.has_arith = true;
+        }
+        Ok(op.super_fold_with(self)?.into())
+    }
+
     fn fold_set_logic(&mut self, logic: ISymbol) -> Result<Command, Self::Error> {
         self.logic = Some(logic.0.clone());
         Ok(Command::SetLogic { symbol: logic })
-- 
2.43.0


From 44ec4985006ce522d00e4133b665c9c2f04cb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 30/53] fix: recognize an escape right after an incomplete one

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index dd6ce90..6f5d7a9 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -109,7 +109,7 @@ fn convert_z3escapes(s: &str) -> String {
                 } else {
                     new_string.push('x');
                     new_string.push(c);
-                    state = State::Base;
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 }
             }
 
@@ -119,12 +119,13 @@ fn convert_z3escapes(s: &str) -> String {
                     new_string.push(x);
                     new_string.push(c);
                     new_string.push('}');
+                    state = State::Base;
                 } else {
                     new_string.push('x');
                     new_string.push(x);
                     new_string.push(c);
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 };
-                state = State::Base;
             }
         }
     }
-- 
2.43.0


From dba3c3e12a071219d435e540a241d0fff218d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 31/53] fix: insert the logic after set-option commands that
 follow a set-info

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 6f5d7a9..7782867 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -238,9 +238,14 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
         } else {
             "QF_S"
         };
+        // These may be mixed with (set-info ...) commands.
         let mut i = 0;
-        while let Some(Command::SetOption { .. }) = v.get(i) {
-            i += 1;
+        for (j, command) in v.iter().enumerate() {
+            match command {
+                Command::SetOption { .. } => i = j + 1,
+                Command::SetInfo { .. } => {}
+                _ => break,
+            }
         }
         v.insert(
             i,
-- 
2.43.0


From 90c880f20aa3c02655d9eddd66cacc1d95b6de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 32/53] fix: size the feature vector by the given buckets

---
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 90162a8..fe10e33 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -39,7 +39,7 @@ def get_bucket_labels(buckets=default_buckets):
 def get_features(fp_count_out, buckets=default_buckets):
 
     # Initialize feature vector with all zeros
-    features = [0 for i in range(len(default_buckets)+1)]
+    features = [0 for i in range(len(buckets)+1)]
 
     for l in fp_count_out:
         num_words = int(l.strip())
-- 
2.43.0


From 1a90c058bf9b780b023cfe2be59cdfa055ad1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 33/53] fix: strip only the file extension from benchmark names

---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 3 ++-
 amzn-smt-prediction/scripts/get_solver_output.py       | 3 ++-
 amzn-smt-prediction/scripts/get_word_count_features.py | 3 ++-
 amzn-smt-prediction/scripts/get_word_counts.py         | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 5237a92..e82d69c 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -5,6 +5,7 @@
 
 import os
 import sys, subprocess
+from re import sub
 from time import time
 
 timeout = 300
@@ -31,7 +32,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = sub(r'\.smt2$', '', l.replace('/', '_'))
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 6847885..06366ce 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -2,6 +2,7 @@
 
 import os
 import sys, subprocess
+from re import sub
 
 solvers = ['cvc4', 'z3'] # TODO If adding a new solver, add it here
 
@@ -78,7 +79,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = sub(r'\.smt2$', '', l.replace('/', '_'))
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index fe10e33..0eeaea0 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -1,4 +1,5 @@
 import os, sys
+from re import sub
 from statistics import stdev
 
 solvers   = ['cvc4', 'z3'] # TODO If adding a new solver, add it here
@@ -98,7 +99,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = sub(r'\.smt2$', '', b_path.replace('/', '_'))
 
         print(b_name)
  
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index 9c7b4c6..0191272 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -4,6 +4,7 @@
 # the counts.
 
 import os, sys
+from re import sub
 
 solvers = ['cvc4', 'z3'] # TODO If adding a new solver, add it here
 
@@ -42,7 +43,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = sub(r'\.smt2$', '', b_path.replace('/', '_'))
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
         fp_count_out = open(path_to_write + '/' + solver + "_count_" + b_name, 'w') # Path where we will write the word counts
-- 
2.43.0


From e4aaa9dacff64858be407df6277da87965c06b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 34/53] fix: read the last benchmark of a list that doesn't end
 in a newline

---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py       | 2 +-
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 amzn-smt-prediction/scripts/get_word_counts.py         | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index e82d69c..afd2eb6 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -30,7 +30,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
         b_name = sub(r'\.smt2$', '', l.replace('/', '_'))
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 06366ce..7b4b7e3 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -77,7 +77,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
         b_name = sub(r'\.smt2$', '', l.replace('/', '_'))
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 0eeaea0..f3fd029 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -98,7 +98,7 @@ if __name__=='__main__':
     for l in fp_in:
         i += 1
 
-        b_path = l[1:-1] # Strip off leading slash and trailing newline
+        b_path = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_name = sub(r'\.smt2$', '', b_path.replace('/', '_'))
 
         print(b_name)
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index 0191272..0ec528b 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -42,7 +42,7 @@ if __name__=='__main__':
     for l in fp_in:
         i += 1
 
-        b_path = l[1:-1] # Strip off leading slash and trailing newline
+        b_path = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_name = sub(r'\.smt2$', '', b_path.replace('/', '_'))
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 8402b89..d19213d 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -102,7 +102,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
 
         print(str(i) + ": " + b_path)
-- 
2.43.0


From 701d7e3e3ae77ef779630cf868ace447b24ffa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 35/53] fix: write benchmark lists in the format in which they
 are read

---
 amzn-smt-prediction/scripts/find_faster_fmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index afd2eb6..7cfa239 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -60,9 +60,9 @@ if __name__=='__main__':
         
         if(elapsed_fmf < elapsed_no_fmf):
             print(start_yellow + "FMF FASTER!" + end_yellow)
-            fp_out1.write(l + '\n')
+            fp_out1.write('/' + l + '\n')
         else:
-            fp_out2.write(l + '\n')
+            fp_out2.write('/' + l + '\n')
 
         fp_out3.write(str(elapsed_fmf) + "," + str(elapsed_no_fmf) + "\n")
 
-- 
2.43.0


From 5ee01a144a8bc51fd38e1f1683524c3d4c4f30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 36/53] fix: handle solvers that print nothing before the
 timeout

---
 amzn-smt-prediction/scripts/generate_predictions.py | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py    | 4 ++--
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index 54e82d9..c086db1 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -297,7 +297,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
         raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
     if v == 'Full': print("Done.\n")
 
     # Parse the output to generate the features
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 7b4b7e3..f137878 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -26,7 +26,7 @@ def get_cvc4_output(b_path, fmf):
         out = raw_out.stdout.strip()
 
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
 
     return out
 
@@ -39,7 +39,7 @@ def get_z3_output(b_path):
         raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, text=True, timeout=timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
 
     return out
 
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index d19213d..e2868f0 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -74,7 +74,7 @@ def run_eager_arithmetic(b_path, timeout):
     except subprocess.TimeoutExpired as e:
         print('EA Timeout')
         elapsed = None
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
         print(out)
 
     feature_string = parse_eager_encoding_output(out, b_path)
-- 
2.43.0


From a3ba2f3c2f13d375848f74b1ed3904fc9474c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 37/53] fix: quote benchmark paths that are passed to the shell

---
 amzn-smt-prediction/scripts/find_faster_fmf.py   | 5 +++--
 amzn-smt-prediction/scripts/get_solver_output.py | 5 +++--
 amzn-smt-prediction/scripts/run_eager_v_lazy.py  | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 7cfa239..4f3f122 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -6,6 +6,7 @@
 import os
 import sys, subprocess
 from re import sub
+from shlex import quote
 from time import time
 
 timeout = 300
@@ -42,7 +43,7 @@ if __name__=='__main__':
 
         try:
             start = time()
-            subprocess.run("../solvers/cvc4 --strings-exp --strings-fmf " + b_path, shell=True, timeout=timeout)
+            subprocess.run("../solvers/cvc4 --strings-exp --strings-fmf " + quote(b_path), shell=True, timeout=timeout)
             elapsed_fmf = time() - start
 
         except subprocess.TimeoutExpired:
@@ -50,7 +51,7 @@ if __name__=='__main__':
 
         try:
             start = time()
-            subprocess.run("../solvers/cvc4 --strings-exp  " + b_path, shell=True, timeout=timeout)
+            subprocess.run("../solvers/cvc4 --strings-exp  " + quote(b_path), shell=True, timeout=timeout)
             elapsed_no_fmf = time() - start
 
         except subprocess.TimeoutExpired:
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index f137878..fe10700 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -3,6 +3,7 @@
 import os
 import sys, subprocess
 from re import sub
+from shlex import quote
 
 solvers = ['cvc4', 'z3'] # TODO If adding a new solver, add it here
 
@@ -19,9 +20,9 @@ def get_cvc4_output(b_path, fmf):
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
         if fmf:
-            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk --strings-fmf -t strings-lemma -t strings-conflict " + b_path, capture_output=True, text=True, shell=True, timeout=timeout)
+            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk --strings-fmf -t strings-lemma -t strings-conflict " + quote(b_path), capture_output=True, text=True, shell=True, timeout=timeout)
         else:
-            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk -t strings-lemma -t strings-conflict " + b_path, capture_output=True, text=True, shell=True, timeout=timeout)
+            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk -t strings-lemma -t strings-conflict " + quote(b_path), capture_output=True, text=True, shell=True, timeout=timeout)
 
         out = raw_out.stdout.strip()
 
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index e2868f0..1b75732 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -12,6 +12,7 @@
 import os
 from os.path import isfile
 import sys, subprocess
+from shlex import quote
 from time import time
 
 
@@ -31,7 +32,7 @@ def run_cvc4(b_path, timeout):
     #          (see https://docs.python.org/3/library/subprocess.html#security-considerations)
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
-        raw_out = subprocess.run("../solvers/cvc4  " + b_path, shell=True, capture_output=True, timeout=timeout)
+        raw_out = subprocess.run("../solvers/cvc4  " + quote(b_path), shell=True, capture_output=True, timeout=timeout)
         elapsed = time() - start
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
         return elapsed
-- 
2.43.0


From 415b54451f4a8ba3ce5115bd0bdf95806d9c7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 38/53] fix: pass the problem to amzn-smt-eager-arithmetic as
 --instance

---
 amzn-smt-prediction/scripts/generate_predictions.py | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index c086db1..a9e8120 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -294,7 +294,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
     # Cuts off after 5 seconds, after which encoding is generally done and it is on to solving, which isn't necessary here
     if v == 'Full': print("Generating features... (calling amzn-smt-eager-arithmetic)")
     try:
-        raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
+        raw_out = subprocess.run([path_to_ea_exec, "solve", "--instance", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
         out = str(e.stdout or b'', 'utf-8')
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 1b75732..bd7d97a 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -68,7 +68,7 @@ def run_eager_arithmetic(b_path, timeout):
     start = time()
 
     try:
-        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", b_path], capture_output=True, text=True, timeout=timeout)
+        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", "--instance", b_path], capture_output=True, text=True, timeout=timeout)
         elapsed = time() - start
         out = raw_out.stdout.strip()
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
-- 
2.43.0


From 39aab9a2562f95bea51bed0a726a8e13e7717267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 39/53] fix: parse statistics of partitions with unusual
 variable names

---
 amzn-smt-prediction/scripts/generate_predictions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index a9e8120..165187b 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -74,8 +74,8 @@ def parse_eager_encoding_output(out, problem_file):
     # So if the output format changes, this very well could break
     for l in out.splitlines():
         if l.startswith("Partition"):
-            start = l.index('{') + 2
-            stop  = l.index(' bits')
+            start = l.rindex('Stats {') + len('Stats { ')
+            stop  = l.rindex(' bits')
             pruned = l[start:stop]
             pruned = pruned.replace(' }', '')
 
-- 
2.43.0


From 658dedd11b5bceb91bc45b9a67ac0527276e732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 40/53] fix: keep predictions that run at the same time apart

---
 amzn-smt-prediction/scripts/generate_predictions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index 165187b..4398606 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -1,4 +1,5 @@
 import sys, configparser, json, subprocess
+from os import getpid
 from os.path import isfile
 from tempfile import NamedTemporaryFile
 from time import time
@@ -148,8 +149,8 @@ def do_runtime_prediction(problem_file, endpoint_runtime):
     tmp_bench_list = NamedTemporaryFile(mode='w')
 
     # The offline feature generation executable expects a name for the output, with which it creates a file
-    # "off_features_<name>.csv" in the current directory. We use the time so that we get a unique name each run
-    tmp_output_ext = str(int(time()))
+    # "off_features_<name>.csv" in the current directory. We use the time and the process ID so that we get a unique name each run
+    tmp_output_ext = str(int(time())) + "_" + str(getpid())
     tmp_output = "off_features_" + tmp_output_ext + ".csv"
         
     tmp_bench_list.write(problem_file)
-- 
2.43.0


From a9e158da31ab2706603024575b565941818c9d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 41/53] fix: accept absolute paths of problem files

---
 amzn-smt-prediction/scripts/generate_predictions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index 4398606..5cbabf1 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -1,6 +1,6 @@
 import sys, configparser, json, subprocess
 from os import getpid
-from os.path import isfile
+from os.path import isfile, relpath
 from tempfile import NamedTemporaryFile
 from time import time
 import numpy as np
@@ -153,7 +153,8 @@ def do_runtime_prediction(problem_file, endpoint_runtime):
     tmp_output_ext = str(int(time())) + "_" + str(getpid())
     tmp_output = "off_features_" + tmp_output_ext + ".csv"
         
-    tmp_bench_list.write(problem_file)
+    # It looks for the problem relative to the current directory
+    tmp_bench_list.write(relpath(problem_file))
     tmp_bench_list.flush() # Must flush since no newline
 
 
-- 
2.43.0


From 49b842f016ad8a077466f4538e2f1e1016e8c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 42/53] fix: modernize benchmarks with several dots in their
 paths

---
 amzn-smt-prediction/scripts/modernize_benchmarks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/modernize_benchmarks.py b/amzn-smt-prediction/scripts/modernize_benchmarks.py
index 5185629..637ee61 100644
--- a/amzn-smt-prediction/scripts/modernize_benchmarks.py
+++ b/amzn-smt-prediction/scripts/modernize_benchmarks.py
@@ -26,7 +26,7 @@ if __name__=='__main__':
     fp_in = open(sys.argv[1])
 
     for l in fp_in:
-        name     = l.split('.')[0][:-4] # Get the filename, stripping off the file extension and "_upt"
+        name     = l.rsplit('.', 1)[0][:-4] # Get the filename, stripping off the file extension and "_upt"
         filename = sys.argv[2] + name
         raw_out  = subprocess.run([path_to_exec, filename], capture_output=True, text=True)
 
-- 
2.43.0


From c1bb78d40e4d583ec327dffc11a9c6218e025c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 43/53] fix: document the subcommands of the transformer

---
 amzn-smt-string-transformer/README.md | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/README.md b/amzn-smt-string-transformer/README.md
index 479fcbf..dc14906 100644
--- a/amzn-smt-string-transformer/README.md
+++ b/amzn-smt-string-transformer/README.md
@@ -34,10 +34,10 @@ The main use case of this tool is to canonicalize an smtlib file. From the
 
 ```
 # general case
-./release/release/amzn-smt-string-transformer --input-file <path to file to convert> --mode convert --mapping <mapping type> --use-global-map <boolean>
+./release/release/amzn-smt-string-transformer convert --input-file <path to file to convert> --mapping <mapping type> [--use-global-map]
 
 # specific example
-./release/release/amzn-smt-string-transformer --input-file test_data/example1.smtlib --mode convert --mapping no-reconstruct --use-global-map false
+./release/release/amzn-smt-string-transformer convert --input-file test_data/example1.smtlib --mapping no-reconstruct
 ```
 
 This generates a transformed file,
@@ -71,7 +71,7 @@ There are a few other mode options for running this tool.
 This tool can be used to produce a list of all the subformulas in an SMT file, with the variable names normalized. The subformula option can be called as follows, for an input file `example1.smtlib`:
 
 ```
-./release/release/amzn-smt-string-transformer --input-file test_data/example1.smtlib --mode subformula 
+./release/release/amzn-smt-string-transformer sub-formula --input-file test_data/example1.smtlib
 ```
 
 This produces a file `example1_recon.json` that contains a list of all the subformulas in `example1.smtlib`, but with the variable names normalized.
@@ -93,7 +93,7 @@ The tool can also be used to construct a satisfying solution for the original qu
 
 The reconstruction option can be called as follows, for an input file `example1.smtlib`:
 ```
-./release/release/amzn-smt-string-transformer --input-file test_data/example1.smtlib --mode reconstruct 
+./release/release/amzn-smt-string-transformer reconstruct --input-file test_data/example1.smtlib
 ```
 Calling the reconstruction mode requires that:
 
-- 
2.43.0


From 5ed0f68add51576215b0462802853239eea80391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 44/53] fix: keep equations over string functions when
 restoring the query's shape

reconstruct_orig_query_shape took every assertion (= new_varX f) with f an
application for the definition of new_varX, so an assertion of the query such
as (= (str.len x) (+ y 1)) replaced the definition and was dropped; trivial
equations such as (= (str.len x) (str.len x)) were dropped, too.
---
 .../src/subformula_parser.rs                      | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index ae4fabd..d8db4ff 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -75,7 +75,11 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                         if let [Term::Variable(v), f @ (Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..))] =
                             args.as_slice()
                         {
-                            if v.sym_str().starts_with("new_var") {
+                            // the definition of a new_varX precedes all its other occurrences;
+                            // later equations over it are part of the original query
+                            if v.sym_str().starts_with("new_var")
+                                && !self.string_fct_calls.contains_key(v.sym())
+                            {
                                 self.string_fct_calls.insert(v.sym().clone(), f.clone());
                                 useless_command = true;
                             }
@@ -90,12 +94,15 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                 _ => {}
             }
         }
-        let output = term_to_ret.fold_with(self)?;
-        let output = Command::Assert { term: output };
         if useless_command {
+            // keep the new_varX in its definition: with its value in its place, the definition
+            // would equal the trivial equations of the original query, which are not useless
+            let output = Command::Assert { term: term_to_ret };
             self.remap_useless_commands.insert(output.clone());
+            return Ok(output);
         }
-        Ok(output)
+        let output = term_to_ret.fold_with(self)?;
+        Ok(Command::Assert { term: output })
     }
 
     /// replace mapped variables with their corresponding terms
-- 
2.43.0


From 9e47986218af709baa568c4d3bb53aed1057b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 45/53] fix: give values to constants that canonicalization
 removes from the formula

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 18 +++++++++++--
 amzn-smt-eager-arithmetic/src/encoding.rs     | 25 +++++++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index 89143b2..8c36179 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -10,16 +10,22 @@ use aws_smt_ir::{
     },
     pairwise,
     smt2parser::Numeral,
-    Constant, CoreOp, Ctx, HashOrdered, ICoreOp, ILet, IOp, ISort, Sorted, Term, UnknownSort,
+    Constant, CoreOp, Ctx, HashOrdered, ICoreOp, ILet, IOp, ISort, ISymbol, IVar, QualIdentifier,
+    Sorted, Term, UnknownSort,
 };
 use either::Either;
 use num_traits::{One, Zero};
 use smallvec::{smallvec, SmallVec};
-use std::{collections::BTreeMap, iter};
+use std::{
+    collections::{BTreeMap, HashMap},
+    iter,
+};
 
 pub struct Canonicalizer<'a> {
     context: &'a mut Ctx,
     pub(super) new_asserts: Vec<Term>,
+    /// Constants of the original formula: some of them may not occur in the canonicalized one.
+    pub(super) constants: HashMap<ISymbol, ISort>,
 }
 
 impl<'a> Canonicalizer<'a> {
@@ -27,6 +33,7 @@ impl<'a> Canonicalizer<'a> {
         Self {
             context: ctx,
             new_asserts: Default::default(),
+            constants: Default::default(),
         }
     }
 
@@ -250,6 +257,13 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
         Some(self.context)
     }
 
+    fn fold_var(&mut self, var: IVar<QualIdentifier>) -> Result<Term, Self::Error> {
+        if let Some(sort) = self.context.const_sort(var.sym()) {
+            self.constants.insert(var.sym().clone(), sort.clone());
+        }
+        Ok(var.into())
+    }
+
     fn fold_core_op(&mut self, op: ICoreOp<ALL>) -> Result<Term, Self::Error> {
         let implies = |a: Term, b: Term| CoreOp::Imp([a, b].into()).into();
         Ok(match op.super_fold_with(self)? {
diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index b4fce75..60cf564 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -43,6 +43,8 @@ pub struct Encoder {
     next_bool_var: NonZeroU64,
     next_int_var: u64,
     var_map: HashMap<ISymbol, Variable>,
+    /// All of the constants in the formula, including those that canonicalization has removed.
+    constants: HashMap<ISymbol, ISort>,
     bit_vars: HashMap<IntVariable, (BoolVariable, u64)>,
     bv_bit_vars: HashMap<IVar, (BoolVariable, u64)>,
     encoded: HashMap<BasicOp, Reduced>,
@@ -208,6 +210,7 @@ impl Encoder {
             next_bool_var: NonZeroU64::new(1).unwrap(),
             next_int_var: 0,
             var_map: HashMap::new(),
+            constants: HashMap::new(),
             bit_vars: HashMap::new(),
             bv_bit_vars: HashMap::new(),
             encoded: Default::default(),
@@ -295,6 +298,7 @@ impl Encoder {
         let mut canonicalizer = Canonicalizer::new(&mut ctx);
         let mut script = script.try_fold(&mut canonicalizer)?;
         script.add_asserts(canonicalizer.new_asserts);
+        let constants = canonicalizer.constants;
         let bounds = {
             let mut stats = StatsVisitor::new(&mut ctx);
             match script.visit_asserted(&mut stats) {
@@ -304,6 +308,7 @@ impl Encoder {
             stats.solution_size_upper_bound_bits()
         };
         let mut encoder = Self::new(ctx, bounds);
+        encoder.constants = constants;
         let mut encoded = script.try_fold(&mut encoder)?;
         encoded.add_asserts(std::mem::take(&mut encoder.implied));
         Ok((encoded, encoder))
@@ -567,9 +572,28 @@ impl Encoder {
         .unwrap_or_else(|| true.into())
     }
 
+    /// Produces some value of a sort.
+    fn default_value(sort: &ISort) -> Option<Term> {
+        match sort.sym_str() {
+            "Bool" => Some(false.into()),
+            "Int" => Some(Constant::Numeral(Numeral::zero()).into()),
+            "BitVec" => {
+                let width = sort.bv_width()?.to_usize()?;
+                Some(Constant::Binary(vec![false; width]).into())
+            }
+            _ => None,
+        }
+    }
+
     /// Reconstructs a solution to the formula encoded by `self` given a solution to its boolean encoding.
     pub fn decode(mut self, assignment: &HashMap<BoolVariable, bool>) -> HashMap<ISymbol, Term> {
         let var_map = std::mem::take(&mut self.var_map);
+        // The formula doesn't constrain the constants that aren't encoded, but the values of other
+        // constants and functions may refer to them
+        let unconstrained: Vec<_> = (std::mem::take(&mut self.constants).into_iter())
+            .filter(|(symbol, _)| !var_map.contains_key(symbol))
+            .filter_map(|(symbol, sort)| Some((symbol, Self::default_value(&sort)?)))
+            .collect();
         var_map
             .into_iter()
             .map(|(symbol, var)| match var {
@@ -605,6 +629,7 @@ impl Encoder {
                     (bv.sym().clone(), Constant::Binary(bits.collect()).into())
                 }
             })
+            .chain(unconstrained)
             .collect()
     }
 }
-- 
2.43.0


From 08143ac93a2a582fdd2e5f41b6dd9f1a9e616854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 46/53] fix: find the times of stages that print messages

---
 amzn-smt-string-transformer/data_processing.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-transformer/data_processing.py b/amzn-smt-string-transformer/data_processing.py
index d14cce4..a76b244 100644
--- a/amzn-smt-string-transformer/data_processing.py
+++ b/amzn-smt-string-transformer/data_processing.py
@@ -152,6 +152,7 @@ def get_map_info(query_name):
 # we're getting the "user" time
 # the format is: 
 # command
+# <messages of the command, if any>
 # <empty line>
 # real time
 # user time
@@ -159,12 +160,15 @@ def get_map_info(query_name):
 def get_timing_for_mode(command, file_reader):
 	try:
 		cur_line = file_reader.readline()
-		if cur_line.split("/")[-1].strip() != command:
+		# the command ends with the path of the query
+		if os.path.basename(cur_line.split()[-1]) != os.path.basename(command):
 			return(None)
-		file_reader.readline() # empty line
-		file_reader.readline() # real time
-		cur_line = file_reader.readline().split("user\t")[-1]
-		timing = get_seconds(cur_line)
+		# the messages of the command, an empty line, and the real time come first
+		while not cur_line.startswith("user\t"):
+			cur_line = file_reader.readline()
+			if not cur_line:
+				return(None)
+		timing = get_seconds(cur_line.split("user\t")[-1])
 		file_reader.readline() # sys time
 		return(timing)
 	except: 
-- 
2.43.0


From 5fa021987f138bb2277f66fd27e137b574a317c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 47/53] fix: find all of the queries of an experiment

---
 amzn-smt-string-transformer/data_processing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/data_processing.py b/amzn-smt-string-transformer/data_processing.py
index a76b244..8ab3392 100644
--- a/amzn-smt-string-transformer/data_processing.py
+++ b/amzn-smt-string-transformer/data_processing.py
@@ -208,12 +208,13 @@ else:
 		query_file_list = sys.argv[2]
 		try:
 			with open(query_file_list) as f:
-				all_queries = [fname.split(".")[0] for fname in f.read().split("\n")]
+				all_queries = [fname.split(".")[0] for fname in f.read().split("\n") if fname.strip()]
 		except:
 			all_queries = []
 	os.chdir(data_dir)
 	if len(all_queries) == 0:
-		all_queries = [f.split(".out")[0] for f in os.listdir() if f.find("in.out") > -1]
+		# there is a file with timing information for each of the queries
+		all_queries = [f[:-len("_times.out")] for f in os.listdir() if f.endswith("_times.out")]
 	ret_frame = pd.DataFrame(all_queries, columns=["query"])
 	ret_frame[["orig_res", "trans_res", "recon_res"]] = ret_frame["query"].apply(get_SAT_results)
 	ret_frame[["orig_solver_time", "convert_time", "trans_solver_time"]] = ret_frame["query"].apply(get_timings)
-- 
2.43.0


From 075c1423b23526006decae7ef3a42ddd1b521764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 48/53] fix: analyze experiments in which a stage never
 finished

---
 amzn-smt-string-transformer/data_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/data_processing.py b/amzn-smt-string-transformer/data_processing.py
index 8ab3392..f840f8f 100644
--- a/amzn-smt-string-transformer/data_processing.py
+++ b/amzn-smt-string-transformer/data_processing.py
@@ -223,8 +223,8 @@ else:
 
 	# there is a difference between files empty because of no check-sat, and files empty because of timeouts
 	# so, if the time is NaN, change the result to "gnu_timeout"
-	ret_frame.orig_res = ret_frame.apply(lambda row: row.orig_res if not np.isnan(row.orig_solver_time) else "gnu_timeout", axis=1) 
-	ret_frame.trans_res = ret_frame.apply(lambda row: row.trans_res if not np.isnan(row.trans_solver_time) else "gnu_timeout", axis=1)
+	ret_frame.orig_res = ret_frame.apply(lambda row: row.orig_res if not pd.isnull(row.orig_solver_time) else "gnu_timeout", axis=1) 
+	ret_frame.trans_res = ret_frame.apply(lambda row: row.trans_res if not pd.isnull(row.trans_solver_time) else "gnu_timeout", axis=1)
 	
 	print(ret_frame)
 
-- 
2.43.0


From 9ef61e1a1cd7c807570c875703eb7cd1852bba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 49/53] fix: compare transformed queries whose paths contain
 spaces

---
 amzn-smt-string-transformer/pairwise_diff_count.sh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-transformer/pairwise_diff_count.sh b/amzn-smt-string-transformer/pairwise_diff_count.sh
index 38d871e..a71758a 100644
--- a/amzn-smt-string-transformer/pairwise_diff_count.sh
+++ b/amzn-smt-string-transformer/pairwise_diff_count.sh
@@ -1,13 +1,13 @@
 #!/bin/bash
 
-for file1 in $1/*_transformed.smtlib; do
+for file1 in "$1"/*_transformed.smtlib; do
         same_count=0
-        for file2 in $1/*_transformed.smtlib; do
-                diff $file1 $file2 > /dev/null 2>&1
+        for file2 in "$1"/*_transformed.smtlib; do
+                diff "$file1" "$file2" > /dev/null 2>&1
                 if [ $? -eq 0 ]; then
                         (( same_count = $same_count + 1 ))
-                        echo " --- " $file2
+                        echo " --- " "$file2"
                 fi
         done
-        echo $file1 " : " $same_count
+        echo "$file1" " : " $same_count
 done
-- 
2.43.0


From a5fc26bbf7a70422f34f3f80f7a1c3dd3a8ed0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 50/53] fix: reconstruct from models with more than definitions

---
 .../src/reconstruct_tools.rs                  | 48 +++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index 204beba..e0c930b 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -10,7 +10,10 @@ use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::smt2parser::CommandStream;
 use aws_smt_ir::{FunctionDec, ISymbol};
 use std::collections::HashMap;
-use std::{fs, io, io::BufRead};
+use std::{
+    fs, io,
+    io::{BufRead, Read},
+};
 
 /// enum of possible acceptable results from running a solver on an attempted reconstruction
 /// (recall: "reconstruction" refers to the addition of assertions of the unmapped satisfying solutions
@@ -78,6 +81,38 @@ fn add_asserts_to_original_problem(
         .join("\n"))
 }
 
+/// split a model (without its opening paren) into its elements; not all of them need to be commands,
+/// for example z3 also prints cardinality constraints of uninterpreted sorts
+fn split_model(model: &[u8]) -> Vec<&[u8]> {
+    let mut elements = Vec::new();
+    let (mut start, mut depth) = (0, 0);
+    let mut skip_to = None; // end of the string, quoted symbol or comment we're in
+    for (i, &c) in model.iter().enumerate() {
+        match (skip_to, c) {
+            (Some(end), _) if c == end => skip_to = None,
+            (Some(_), _) => {}
+            (None, b'"' | b'|') => skip_to = Some(c),
+            (None, b';') => skip_to = Some(b'\n'),
+            (None, b'(') => {
+                if depth == 0 {
+                    start = i;
+                }
+                depth += 1;
+            }
+            // end of the model
+            (None, b')') if depth == 0 => break,
+            (None, b')') => {
+                depth -= 1;
+                if depth == 0 {
+                    elements.push(&model[start..=i]);
+                }
+            }
+            _ => {}
+        }
+    }
+    elements
+}
+
 /// function that, given the name of an SMTLIB query, will attempt to
 /// read in the mapping file and result of running the transpiled query
 /// and produce a result that indicates the result of the reconstruction
@@ -134,11 +169,18 @@ pub fn reconstruct_and_add_assertions(
         }
     }
 
-    let model_out = CommandStream::new(transformed_reader, SyntaxBuilder, None);
+    let mut model = Vec::new();
+    if transformed_reader.read_to_end(&mut model).is_err() {
+        return Err(ReconstructErr::TransformOutputFileReadError);
+    }
 
     let mut new_assertions: Vec<Command> = Vec::new();
 
-    for o in model_out.flatten() {
+    // a command stream ends at its first error, so parse the elements of the model one by one
+    for o in split_model(&model)
+        .into_iter()
+        .flat_map(|e| CommandStream::new(e, SyntaxBuilder, None).flatten())
+    {
         if let Ok(comm) = aws_smt_ir::convert::convert_command(o) {
             if let Some(new_assert) = build_string_var_assertions(&new_map, &comm) {
                 new_assertions.push(new_assert);
-- 
2.43.0


From 163140d47052297659b13106ced4ca429b04a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 51/53] fix: report invalid tokens instead of deciding a
 truncated script

---
 amzn-smt-eager-arithmetic/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index c48cbdb..9ed2b2e 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -125,7 +125,18 @@ fn encode_inner(
     let mut script = Vec::new();
     smt.read_to_end(&mut script)
         .context("Unable to read SMT-LIB script")?;
-    let uflia = Script::<Term>::parse(script.as_slice())?;
+    // It does so with tokens it doesn't know, too, so mark the end of the script
+    script.extend_from_slice(b"\n(exit)");
+    let mut commands: Vec<_> = Script::<Term>::parse(script.as_slice())?
+        .into_iter()
+        .collect();
+    if !matches!(commands.pop(), Some(aws_smt_ir::Command::Exit)) {
+        return Err(anyhow!(
+            "invalid token behind command {} of the script",
+            commands.len()
+        ));
+    }
+    let uflia = Script::from_commands(commands);
     println!("Parse time: {:?}", start.elapsed());
     // All of the assertions are encoded together, so neither retracting some of them nor assuming
     // more of them for a single query is supported
-- 
2.43.0


From d3cb2e2d8d484bd9ab16538e0476b620a9611280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 52/53] fix: report benchmarks that cannot be read to their end

---
 amzn-smt-prediction/src/main.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/src/main.rs b/amzn-smt-prediction/src/main.rs
index 3da613c..74a0413 100644
--- a/amzn-smt-prediction/src/main.rs
+++ b/amzn-smt-prediction/src/main.rs
@@ -7,7 +7,7 @@ use std::process::exit;
 use aws_smt_ir::{
     logic::{all::Op, StringOp, ALL},
     visit::{ControlFlow, SuperVisit, Visitor},
-    IOp, Script, Term,
+    Command, IOp, Script, Term,
 };
 
 #[derive(Default, Debug)]
@@ -191,14 +191,21 @@ fn main() -> std::io::Result<()> {
         println!("{}", file_name);
 
         // Open benchmark file
-        let b_file = File::open(&file_name)?;
-        let file_reader = BufReader::new(b_file);
+        // The parser takes errors of its input and invalid tokens for the end of the script, so read
+        // all of it up front and mark its end
+        let mut benchmark = std::fs::read(&file_name)?;
+        benchmark.extend_from_slice(b"\n(exit)");
 
         // Parse formulas
-        let formulas = Script::<Term>::parse(file_reader);
+        let formulas = Script::<Term>::parse(benchmark.as_slice());
 
         match formulas {
             Ok(script) => {
+                if !matches!(script.as_ref().last(), Some(Command::Exit)) {
+                    println!("Error on current benchmark.");
+                    eprintln!("invalid token");
+                    exit(1);
+                }
                 let mut counter = StringCounter::default();
 
                 // Count the String predicates
-- 
2.43.0


From 2ab06855d27cdecce8d731d92f1d214a5b77edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 53/53] fix: report scripts that cannot be read to their end

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 26 +++++++++++++++++--
 amzn-smt-string-transformer/src/transpiler.rs | 26 +++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 7782867..9463d7b 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -21,9 +21,31 @@ type Command = IRCommand<Term>;
 /// in SMT-LIB syntax.
 ///
 pub fn parse(
-    smtlib: impl std::io::BufRead,
+    mut smtlib: impl std::io::BufRead,
 ) -> Result<impl Iterator<Item = Command>, ParseError<ALL>> {
-    Ok(Script::<Term>::parse(smtlib)?.into_iter())
+    let error = |message| {
+        ParseError::Smt2Parser(aws_smt_ir::smt2parser::Error::ParsingError(
+            Default::default(),
+            message,
+        ))
+    };
+    // The parser takes errors of its input and invalid tokens for the end of the script, so read
+    // all of it up front and mark its end
+    let mut script = Vec::new();
+    smtlib
+        .read_to_end(&mut script)
+        .map_err(|e| error(e.to_string()))?;
+    script.extend_from_slice(b"\n(exit)");
+    let mut commands: Vec<Command> = Script::<Term>::parse(script.as_slice())?
+        .into_iter()
+        .collect();
+    if !matches!(commands.pop(), Some(Command::Exit)) {
+        return Err(error(format!(
+            "invalid token behind command {}",
+            commands.len()
+        )));
+    }
+    Ok(commands.into_iter())
 }
 
 /// basic visitor; we are going to modernize some of the string functions
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 5530b22..d6ebeab 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -36,9 +36,31 @@ type Command = IRCommand<Term>;
 
 /// parse an smtlib query into an iterator of Commands
 pub fn parse(
-    smtlib: impl std::io::BufRead,
+    mut smtlib: impl std::io::BufRead,
 ) -> Result<impl Iterator<Item = Command>, ParseError<ALL>> {
-    Ok(Script::<Term>::parse(smtlib)?.into_iter())
+    let error = |message| {
+        ParseError::Smt2Parser(aws_smt_ir::smt2parser::Error::ParsingError(
+            Default::default(),
+            message,
+        ))
+    };
+    // The parser takes errors of its input and invalid tokens for the end of the script, so read
+    // all of it up front and mark its end
+    let mut script = Vec::new();
+    smtlib
+        .read_to_end(&mut script)
+        .map_err(|e| error(e.to_string()))?;
+    script.extend_from_slice(b"\n(exit)");
+    let mut commands: Vec<Command> = Script::<Term>::parse(script.as_slice())?
+        .into_iter()
+        .collect();
+    if !matches!(commands.pop(), Some(Command::Exit)) {
+        return Err(error(format!(
+            "invalid token behind command {}",
+            commands.len()
+        )));
+    }
+    Ok(commands.into_iter())
 }
 
 /// struct representing string properties to maintain when mapping to new strings.
-- 
2.43.0

