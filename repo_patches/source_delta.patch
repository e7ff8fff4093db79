From add91d1e1d20a9d2391987af666930cc3dd33ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 01/39] fix: power_iu returns 1 for exponent zero and the base
 for exponent one

---
 projects/sm-algorithm/src/basic/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 4f12eab..74364d9 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -3,7 +3,6 @@ use crate::{
     Result,
 };
 use num::{
-    bigint::Sign,
     integer::{gcd, ExtendedGcd},
     traits::Pow,
     BigInt, BigUint, Integer, One, ToPrimitive, Zero,
@@ -13,14 +12,14 @@ pub fn power_iu(a: &BigInt, b: &BigUint) -> Result<BigInt> {
     if a.is_zero() && b.is_zero() {
         return Err(Indeterminate);
     }
-    else if a.is_zero() || b.is_zero() {
+    else if a.is_zero() {
         return Ok(BigInt::zero());
     }
-    else if a.is_one() {
+    else if a.is_one() || b.is_zero() {
         return Ok(BigInt::one());
     }
     else if b.is_one() {
-        return Ok(BigInt::from_biguint(Sign::Plus, b.clone()));
+        return Ok(a.clone());
     }
     match b.to_u32() {
         None => Err(OverFlow),
-- 
2.43.0


From 5fcf70b0b5d69a877b235a97cc7e8f64b1ef7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 02/39] fix: modulo_division uses the Bezout coefficient of the
 divisor

---
 projects/sm-algorithm/src/basic/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 74364d9..7001b95 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -69,8 +69,8 @@ fn test_modulo_inverse() {
 /// division in modulo
 /// $bx \equiv a \pmod{m}$
 pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {
-    let ExtendedGcd { gcd, x: _, y, .. } = b.extended_gcd(m);
-    if (a % &gcd).is_zero() { Some(a / &gcd * y) } else { None }
+    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);
+    if (a % &gcd).is_zero() { Some(a / &gcd * x) } else { None }
 }
 
 #[test]
-- 
2.43.0


From d8b1d4ac5862c4cfbef9ff7dda3e51d4b5cac4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 03/39] fix: chinese_remainder returns None for an empty system
 instead of panicking

---
 projects/sm-algorithm/src/basic/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 7001b95..be742c2 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -95,7 +95,7 @@ pub fn chinese_remainder(u: &[BigInt], m: &[BigInt]) -> Option<BigInt> {
         let t = v.iter().zip(m.iter()).rev().fold(BigInt::zero(), |t, (v_j, m_j)| m_j * t + v_j % m_i);
         v.push((u_i - t) * c_i % m_i);
     }
-    let mut ret = v.pop().unwrap();
+    let mut ret = v.pop()?;
     for (v_i, m_i) in v.iter().zip(m.iter()).rev() {
         ret = ret * m_i + v_i;
     }
-- 
2.43.0


From 622fe62e6573b08d12e95698f57477b60f453ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 04/39] fix: factorial_i reports the pole for every negative
 integer, not only machine-sized ones

---
 projects/sm-algorithm/src/gamma/factorial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/gamma/factorial.rs b/projects/sm-algorithm/src/gamma/factorial.rs
index 64b37ae..68b7892 100644
--- a/projects/sm-algorithm/src/gamma/factorial.rs
+++ b/projects/sm-algorithm/src/gamma/factorial.rs
@@ -1,5 +1,5 @@
 use crate::Result;
-use num::{BigInt, ToPrimitive};
+use num::{BigInt, Signed, ToPrimitive};
 // ```wl
 // TemplateApply[
 // "cache.insert(`1`,BigInt::from(`2`));\n",
@@ -29,6 +29,7 @@ pub fn factorial_i(n: &BigInt) -> Result<BigInt> {
                 Ok(BigInt::from(factorial_fold_u(s as usize)))
             }
         }
+        None if n.is_negative() => Err(ComplexInfinity),
         None => Err(OverFlow),
     }
 }
-- 
2.43.0


From a62f30788e10889ecf7aba86696c4f0be3705de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 05/39] fix: fibonacci_i handles negative indices by reflection

---
 projects/sm-algorithm/src/linear/fibonacci.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/linear/fibonacci.rs b/projects/sm-algorithm/src/linear/fibonacci.rs
index 84d6206..067d0a9 100644
--- a/projects/sm-algorithm/src/linear/fibonacci.rs
+++ b/projects/sm-algorithm/src/linear/fibonacci.rs
@@ -5,8 +5,8 @@ use std::collections::BTreeMap;
 pub fn fibonacci_i(n: &BigInt) -> Result<BigInt> {
     match n.to_isize() {
         Some(s) => {
-            let u = fibonacci_fast_u(s as usize);
-            if s < 0 && s.is_even() { Ok(BigInt::from(-u)) } else { Ok(BigInt::from(u)) }
+            let u = BigInt::from(fibonacci_fast_u(s.unsigned_abs()));
+            if s < 0 && s.is_even() { Ok(-u) } else { Ok(u) }
         }
         None => Err(OverFlow),
     }
-- 
2.43.0


From 0975a5765fe5af61720f4a24d0403e59577c8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 06/39] fix: prime_sum_u64(0) is 0 instead of a panic

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 28cf76a..a05ba0b 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,6 +12,7 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    if n == 0 { return 0; }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
-- 
2.43.0


From 974b94bb6be09d0bf3fb88a87decb0b57f23c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 07/39] fix: prime sums above 2^32 no longer overflow 64-bit
 intermediates

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index a05ba0b..3fe7900 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,19 +12,25 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    prime_sum_u128(n).to_u64().expect("prime sum exceeds u64")
+}
+
+// the intermediate sums over all integers up to `n` exceed 64 bits long before the prime sum does
+#[rustfmt::skip]
+fn prime_sum_u128(n: u64) -> u128 {
     if n == 0 { return 0; }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
     v.extend((0..*v.last().unwrap()).rev());
-    let mut s: BTreeMap<u64, u64> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).wrapping_sub(1))).collect();
+    let mut s: BTreeMap<u64, u128> = v.iter().copied().map(|i| (i, ((i as u128 + 1) * i as u128 / 2).wrapping_sub(1))).collect();
     for p in 2..=r {
         if s[&p] > s[&(p - 1)] {
             // p is prime
             let (sp, p2) = (s[&(p - 1)], p * p);
             for &ve in &v {
                 if ve < p2 { break; }
-                *s.get_mut(&ve).unwrap() -= p * (s[&(ve / p)] - sp);
+                *s.get_mut(&ve).unwrap() -= p as u128 * (s[&(ve / p)] - sp);
             }
         }
     }
@@ -79,7 +85,7 @@ pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {
     }
     return match n.to_u64() {
         None => Err(Unimplemented),
-        Some(s) => Ok(BigInt::from(prime_sum_u64(s))),
+        Some(s) => Ok(BigInt::from(prime_sum_u128(s))),
     };
 }
 
-- 
2.43.0


From 64a307c30628d569a172a4f2eea65d597b26757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 08/39] fix: evaluate infix addition, whose symbol is named
 `add`

---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 0d508b1..a4416bb 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -61,7 +61,7 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
         "length" => internal::length(&args[0])?,
         "factorial" => internal::factorial(&args[0])?,
         "fibonacci" => internal::fibonacci(&args[0])?,
-        "plus" => evaluate_additive(&args, ctx)?,
+        "plus" | "add" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
         _ => {
-- 
2.43.0


From 8755517d7c6db3e03058f76293a2633d5adbe352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 09/39] fix: an exponent that is too large is an overflow
 error, not the base itself

---
 projects/sm-ast/src/evaluate/forward.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index a4416bb..393ceca 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -2,7 +2,7 @@ use crate::{
     ast::{Parameter, Symbol},
     internal, Context, SMError, SMResult, AST,
 };
-use num::{traits::Pow, ToPrimitive};
+use num::{traits::Pow, Signed, ToPrimitive};
 
 type S = SMResult<AST>;
 
@@ -93,8 +93,9 @@ fn evaluate_multiplicative(vec: &[AST], _: &mut Context) -> S {
 
 fn evaluate_power(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
-        [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_u64() {
-            None => AST::Integer(lhs.clone()),
+        [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_u32() {
+            None if rhs.is_negative() => return Err(SMError::Unimplemented(unimplemented_function!())),
+            None => return Err(SMError::Overflow),
             Some(s) => AST::Integer(lhs.pow(s)),
         },
         _ => {
-- 
2.43.0


From 5c2b5ce5add8b543a23a282011caa46e0e94ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 10/39] fix: calling a builtin without arguments is an error,
 not a panic

---
 projects/sm-ast/src/evaluate/forward.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 393ceca..12bd33b 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -55,6 +55,9 @@ impl AST {
 // }
 fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     let args = p.arguments;
+    if args.is_empty() {
+        return Err(SMError::Unimplemented(unimplemented_function!()));
+    }
     let out = match f.name.as_str() {
         "first" => internal::first(&args[0])?,
         "last" => internal::last(&args[0])?,
-- 
2.43.0


From 619f1031950555e29e4fc3af4ad7c1d580af785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 11/39] fix: builtins report an unsupported argument as an
 error, not a panic

---
 projects/sm-ast/src/internal/elementary.rs    | 6 +++---
 projects/sm-ast/src/internal/list_like.rs     | 8 ++++----
 projects/sm-ast/src/internal/number_theory.rs | 4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index 6ef050b..d0b5bc1 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::{factorial_i, fibonacci_i};
 
 pub fn sqrt(expr: &AST) -> SMResult<AST> {
@@ -64,7 +64,7 @@ pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
         AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -72,7 +72,7 @@ pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
         AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index d367693..1e65ec5 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -1,4 +1,4 @@
-use crate::{error::SMError::EmptyContainer, SMResult, AST};
+use crate::{error::SMError::EmptyContainer, SMError, SMResult, AST};
 
 pub fn head(expr: &AST) -> AST {
     match expr {
@@ -19,7 +19,7 @@ pub fn head(expr: &AST) -> AST {
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::String(s) => Ok(AST::integer(s.len())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -29,7 +29,7 @@ pub fn first(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `first` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -39,7 +39,7 @@ pub fn last(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `last` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/number_theory.rs b/projects/sm-ast/src/internal/number_theory.rs
index 3518111..c8872d7 100644
--- a/projects/sm-ast/src/internal/number_theory.rs
+++ b/projects/sm-ast/src/internal/number_theory.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::prime_sum_i;
 
 pub fn floor(expr: &AST) -> SMResult<AST> {
@@ -41,6 +41,6 @@ pub fn prime_sum(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(prime_sum_i(n)?)),
         AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From 1812cd124c119175ac58b9f2e46b9429a4c223f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 12/39] fix: length of a string counts characters, as first and
 last do

---
 projects/sm-ast/src/internal/list_like.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index 1e65ec5..c6923b7 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -18,7 +18,7 @@ pub fn head(expr: &AST) -> AST {
 
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
-        AST::String(s) => Ok(AST::integer(s.len())),
+        AST::String(s) => Ok(AST::integer(s.chars().count())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From 8ddcae65b0d8738e88f079ceb07723e3d39564ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 13/39] fix: asking for the last output after a failed input is
 an error, not a panic

---
 projects/sm-ast/src/evaluate/traits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/traits.rs b/projects/sm-ast/src/evaluate/traits.rs
index e50dba7..5296119 100644
--- a/projects/sm-ast/src/evaluate/traits.rs
+++ b/projects/sm-ast/src/evaluate/traits.rs
@@ -1,4 +1,4 @@
-use crate::{parser::ParserSettings, Runner, SMResult, AST};
+use crate::{parser::ParserSettings, Runner, SMError, SMResult, AST};
 
 impl Default for Runner {
     fn default() -> Self {
@@ -29,7 +29,9 @@ impl Runner {
     }
 
     pub fn last(&self) -> SMResult<AST> {
-        let o = self.ctx.outputs.get(&self.ctx.index).unwrap();
-        Ok(o.clone())
+        match self.ctx.outputs.get(&self.ctx.index) {
+            Some(o) => Ok(o.clone()),
+            None => Err(SMError::EmptyContainer(String::from("The last input has no output"))),
+        }
     }
 }
-- 
2.43.0


From b42ca8c4284a55396dc7864ddfa67a1f5206a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 14/39] fix: an empty input displays as nothing instead of
 panicking

---
 projects/sm-ast/src/ast/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 92a523f..658cecf 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -13,7 +13,7 @@ use std::{
 impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            AST::EmptyStatement => unimplemented!(),
+            AST::EmptyStatement => Ok(()),
             AST::Program(_) => unimplemented!(),
             AST::Function(s, ps) => {
                 match &s.kind {
-- 
2.43.0


From 973449b2456132f52cd504906a4e3125fb74a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 15/39] fix: null lives in the namespace std::constant

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index df9e5df..414eca1 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -382,7 +382,7 @@ impl ParserSettings {
 
     fn parse_special(&self, pairs: Pair<Rule>) -> AST {
         match pairs.as_str() {
-            "null" => AST::symbol("std::constant:Null"),
+            "null" => AST::symbol("std::constant::Null"),
             "true" => AST::Boolean(true),
             "false" => AST::Boolean(false),
             _ => unreachable!(),
-- 
2.43.0


From c83bc02db4f168d496a749dc7f14c841aafa94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 16/39] =?UTF-8?q?fix:=20accept=20the=20prefix=20operator?=
 =?UTF-8?q?=20=C2=AC,=20which=20the=20grammar=20and=20the=20documentation?=
 =?UTF-8?q?=20list?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 51dda46..7291f0d 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -5,7 +5,7 @@ pub fn prefix_map(text: &str) -> Symbol {
         "+" => "plus",
         "-" => "minus",
         "*" => "unpack",
-        "!" => "not",
+        "!" | "¬" => "not",
         _ => unreachable!(),
     };
     Symbol {
-- 
2.43.0


From 33230fc184a97c4f523f6f26daf02318e7035f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 17/39] fix: numbered slot sequences no longer panic

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 414eca1..61d45b1 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -344,7 +344,7 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::SYMBOL => slot.push(AST::string(pair.as_str())),
-                Rule::Integer => {
+                Rule::Integer | Rule::Positive => {
                     let i = BigInt::from_str(pair.as_str()).unwrap();
                     slot.push(AST::integer(i))
                 }
-- 
2.43.0


From c5196a36033e336e58a9a8954d342099f64b3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 18/39] fix: decimals, bytes and calls can be factors of a
 juxtaposed product

---
 projects/sm-ast/src/parser/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 61d45b1..ab2eccb 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -178,6 +178,9 @@ impl ParserSettings {
                 Rule::Integer => {
                     stack.push(self.parse_integer(pair));
                 }
+                Rule::Decimal => stack.push(self.parse_decimal(pair)),
+                Rule::Byte => stack.push(self.parse_byte(pair)),
+                Rule::apply_call => stack.push(self.parse_apply_call(pair)),
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From 05c51234d1924ca6a202e70f79006f0e98638092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 19/39] fix: the fraction of a decimal may start with zero

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8fc32f0..6f77739 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -146,7 +146,7 @@ Step = {expr}
 /*====================================================================================================================*/
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
-Decimal = ${Integer ~ Dot ~ Integer}
+Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
 Integer = @{"0"|Positive}
 Byte    = ${
     ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index b3de4f1..aaca773 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -500,7 +500,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Decimal(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::Integer(state)))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::ASCII_DIGIT(state)).and_then(|state| state.repeat(|state| self::ASCII_DIGIT(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 5a5fec64f571f073a67c5b41b878d098c56bcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 20/39] fix: null, true and false are whole words, not prefixes
 of identifiers

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 6f77739..e9be1b8 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -168,7 +168,7 @@ SYMBOL = @{
 }
 /*====================================================================================================================*/
 ///#D19A66
-Special  = @{"null"|"true"|"false"}
+Special  = @{("null"|"true"|"false") ~ !XID_CONTINUE}
 Slot     = ${"##" ~ Positive?|"#" ~ (SYMBOL|Integer)?}
 REPL     = @{"¶" ~ Positive|"¶"+| "⁋" ~ Positive|"⁋"+}
 Positive = @{ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index aaca773..271cef9 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -545,7 +545,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Special(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false"))))
+                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false")).and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 8686562b7520a1b772d95e4d9dcb23dba892c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 21/39] fix: displayed operators keep the brackets that their
 grouping needs

---
 projects/sm-ast/src/ast/traits.rs | 16 ++++++++++++----
 projects/sm-ast/src/parser/ops.rs |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 658cecf..5ac1c7b 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -21,14 +21,17 @@ impl Display for AST {
                     SymbolKind::Alias => unimplemented!(),
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{0}{1}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.precedence() < 255 { write!(f, "{}({})", o, arg) } else { write!(f, "{}{}", o, arg) };
                         }
                     }
                     SymbolKind::Infix(o, p) => {
                         if is_multiary(ps) {
                             let mut v = vec![];
-                            for arg in &ps[0].arguments {
-                                if arg.precedence() < *p { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                            for (i, arg) in ps[0].arguments.iter().enumerate() {
+                                // an operand of the same precedence needs brackets where the parser would group it otherwise
+                                let regroups = arg.precedence() == *p && (i > 0) != (o.as_ref() == "^");
+                                if arg.precedence() < *p || regroups { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
                             return write!(f, "{0}", v.join(o));
@@ -36,7 +39,12 @@ impl Display for AST {
                     }
                     SymbolKind::Suffix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{1}{0}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            let regroups = match arg {
+                                AST::Function(s, _) => s.is_prefix() || s.is_infix() || s.is_suffix(),
+                                _ => false,
+                            };
+                            return if regroups { write!(f, "({}){}", arg, o) } else { write!(f, "{}{}", arg, o) };
                         }
                     }
                 }
diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 7291f0d..6c45ea4 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -35,7 +35,7 @@ pub fn infix_map(text: &str) -> Symbol {
         "+" => ("add", 80),
         "-" => ("subtract", 80),
         "*" => ("times", 140),
-        "/" => ("divide", 140),
+        "/" => ("divide", 145),
         "//" => ("quotient", 140),
         "^" => ("power", 150),
         _ => (text, 170),
-- 
2.43.0


From df14eb4d59aff012c4a657b921866f2c73e955ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 22/39] fix: whitespace and comments may follow an opening and
 precede a closing parenthesis

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index e9be1b8..8390701 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -114,7 +114,7 @@ function_module = {Dot ~ (SYMBOL ~ Dot)*}
 expression =  {expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
-node       =  {"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
+node       =  {"(" ~ (WHITESPACE|COMMENT)* ~ expr ~ (WHITESPACE|COMMENT)* ~ ")"|apply_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
 space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 271cef9..51f2647 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -410,7 +410,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn node(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
+                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| state.repeat(|state| self::WHITESPACE(state).or_else(|state| state.restore_on_err(|state| self::COMMENT(state))))).and_then(|state| self::expr(state)).and_then(|state| state.repeat(|state| self::WHITESPACE(state).or_else(|state| state.restore_on_err(|state| self::COMMENT(state))))).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From e54678b845c34328cc822a7b58c34fb14922f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 23/39] fix: block comments no longer panic the parser or
 swallow the code between two of them

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8390701..648691e 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -182,7 +182,7 @@ COMMENT = _{
   | "//!" ~ (!NEWLINE ~ ANY)* //fixme
   | "//*" ~ (!NEWLINE ~ ANY)* //warning
 }
-MultiLineComment = ${ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
+MultiLineComment = _{ "%%%" ~ (!"%%%" ~ ANY)* ~ "%%%"}
 /*====================================================================================================================*/
 //!#56B6C2: Prefix|Infix|Postfix
 Prefix = @{
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 51f2647..1048f03 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -575,7 +575,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn MultiLineComment(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::MultiLineComment, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
+                    state.sequence(|state| state.match_string("%%%").and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.optional(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::ANY(state))).and_then(|state| state.repeat(|state| state.sequence(|state| super::hidden::skip(state).and_then(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::ANY(state)))))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("%%%")))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From f7fadbaf28b1275cfc317de4ded1eaf38a91deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 24/39] fix: a.1.2 and other dot calls on a literal keep their
 operands instead of panicking

---
 projects/sm-ast/src/parser/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index ab2eccb..d38fc98 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -148,7 +148,10 @@ impl ParserSettings {
                 let p = Parameter { arguments: vec![lhs, AST::integer(i)], options: Default::default(), position: position.clone() };
                 AST::Function(s, vec![p])
             }
-            _ => unreachable!(),
+            rhs => {
+                let p = Parameter { arguments: vec![lhs, rhs], options: Default::default(), position: position.clone() };
+                AST::Function(infix_map("."), vec![p])
+            }
         };
     }
 
-- 
2.43.0


From b43febd5cba147d4eeb3e99753ea6c1884851878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 25/39] fix: syntax without an AST is reported as an error
 instead of a panic or a silently shortened expression

---
 projects/sm-ast/src/parser/parse.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index d38fc98..496b690 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -1,7 +1,7 @@
 use crate::{
     ast::{Expression, Parameter, Position, Symbol},
     parser::{infix_map, prefix_map, suffix_map, ParserSettings, CLIMBER},
-    SMResult, ToWolfram, AST,
+    SMError, SMResult, ToWolfram, AST,
 };
 use bigdecimal::BigDecimal;
 use num::{BigInt, Num};
@@ -14,6 +14,23 @@ use std::{
     str::FromStr,
 };
 
+/// Forms that the grammar accepts but that have no AST yet
+fn is_unsupported(pair: &Pair<Rule>) -> bool {
+    match pair.as_rule() {
+        // statements
+        Rule::importStatement | Rule::classStatement | Rule::traitStatement | Rule::extendStatement => true,
+        Rule::assignStatement | Rule::defineStatement | Rule::annotation => true,
+        Rule::if_statement | Rule::for_statement | Rule::re_control => true,
+        // data
+        Rule::dict | Rule::derivative => true,
+        // operators, without precedence the rest of the expression would be lost
+        Rule::Set | Rule::Equal | Rule::Grater | Rule::GraterEqual => true,
+        Rule::CenterDot | Rule::Kronecker | Rule::TensorProduct | Rule::Quotient | Rule::Modulo => true,
+        Rule::Suffix => pair.as_str() != "!" && pair.as_str() != "!!",
+        _ => false,
+    }
+}
+
 impl ParserSettings {
     pub fn parse_file(&self, path_from: &str, path_to: &str) -> SMResult<()> {
         let r = read_to_string(path_from)?;
@@ -28,9 +45,13 @@ impl ParserSettings {
 
     pub fn parse(&self, text: &str) -> SMResult<AST> {
         let pairs = SMParser::parse(Rule::program, text)?;
+        if let Some(pair) = pairs.clone().flatten().find(is_unsupported) {
+            return Err(SMError::Unimplemented(format!("Unsupported syntax: {}", pair.as_str())));
+        }
         for pair in pairs {
             match pair.as_rule() {
                 Rule::EOI => continue,
+                Rule::emptyStatement => continue,
                 Rule::expression => {
                     return Ok(self.parse_expression(pair).0);
                 }
-- 
2.43.0


From 542c6a4c6b4e87206b09798e5b76ecbece1d3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 26/39] fix: factorial, fibonacci and prime_sum of a decimal
 are an error, not the decimal itself

---
 projects/sm-ast/src/internal/elementary.rs    | 2 --
 projects/sm-ast/src/internal/number_theory.rs | 1 -
 2 files changed, 3 deletions(-)

diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index d0b5bc1..9712d36 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -63,7 +63,6 @@ pub fn log10(expr: &AST) -> SMResult<AST> {
 pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
@@ -71,7 +70,6 @@ pub fn factorial(expr: &AST) -> SMResult<AST> {
 pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
diff --git a/projects/sm-ast/src/internal/number_theory.rs b/projects/sm-ast/src/internal/number_theory.rs
index c8872d7..acd8dec 100644
--- a/projects/sm-ast/src/internal/number_theory.rs
+++ b/projects/sm-ast/src/internal/number_theory.rs
@@ -40,7 +40,6 @@ pub fn factor_integer(expr: &AST) -> SMResult<AST> {
 pub fn prime_sum(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(prime_sum_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From e58aa44adfe9ca63fe3844bd94f653eeec133e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 27/39] fix: a separator right after the base of a byte literal
 no longer panics

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 496b690..d130d48 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -391,7 +391,7 @@ impl ParserSettings {
             _ => unreachable!(),
         };
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
-        let i = BigInt::from_str_radix(&s[2..s.len()], base).unwrap();
+        let i = BigInt::from_str_radix(&s[2..s.len()].replace('_', ""), base).unwrap();
         return AST::Integer(i);
     }
 
-- 
2.43.0


From 8b82342a70b77a005dab8aab3e1d409d60e536e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 28/39] fix: several statements in one input are an error, the
 later ones are not silently dropped

---
 projects/sm-ast/src/parser/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index d130d48..763f1fd 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -48,18 +48,20 @@ impl ParserSettings {
         if let Some(pair) = pairs.clone().flatten().find(is_unsupported) {
             return Err(SMError::Unimplemented(format!("Unsupported syntax: {}", pair.as_str())));
         }
+        let mut base = None;
         for pair in pairs {
             match pair.as_rule() {
                 Rule::EOI => continue,
                 Rule::emptyStatement => continue,
+                Rule::expression if base.is_none() => base = Some(self.parse_expression(pair).0),
                 Rule::expression => {
-                    return Ok(self.parse_expression(pair).0);
+                    return Err(SMError::Unimplemented(format!("Unsupported syntax, more than one statement: {}", pair.as_str())));
                 }
                 Rule::COMMENT => continue,
                 _ => debug_cases!(pair),
             };
         }
-        return Ok(AST::EmptyStatement);
+        return Ok(base.unwrap_or(AST::EmptyStatement));
     }
 
     fn parse_expression(&self, pairs: Pair<Rule>) -> (AST, bool) {
-- 
2.43.0


From c7aad14c67b16ebafc8666ef62a16f37817e60bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 29/39] fix: statement keywords are whole words, not prefixes
 of identifiers

---
 projects/sm-parser/simple-math.pest | 16 +++++++++-------
 projects/sm-parser/src/sm_parser.rs |  9 ++++++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 648691e..6d94a2b 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -2,19 +2,21 @@ program = _{SOI~statement* ~ EOI}
 
 statement = _{
     emptyStatement
-  | importStatement ~ eos?
-  | classStatement ~ eos?
-  | traitStatement ~ eos?
-  | extendStatement ~ eos?
-  | controlFlow ~ eos?
-  | assignStatement ~ eos?
-  | defineStatement ~ eos?
+  | &Keyword ~ importStatement ~ eos?
+  | &Keyword ~ classStatement ~ eos?
+  | &Keyword ~ traitStatement ~ eos?
+  | &Keyword ~ extendStatement ~ eos?
+  | &Keyword ~ controlFlow ~ eos?
+  | &Keyword ~ assignStatement ~ eos?
+  | &Keyword ~ defineStatement ~ eos?
   | annotation ~ eos?
   | expression
 }
 /*====================================================================================================================*/
 emptyStatement = {eos | Separate}
 eos = {Semicolon}
+// a statement keyword is a whole word
+Keyword = @{("using"|"class"|"trait"|"extends"|"if"|"for"|"return"|"break"|"pass"|"let"|"def") ~ !XID_CONTINUE}
 comma_or_semi = _{Comma|Semicolon}
 block_or_stmt = _{block|Set ~ statement}
 /*====================================================================================================================*/
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 1048f03..4569193 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -7,6 +7,7 @@ pub enum Rule {
     statement,
     emptyStatement,
     eos,
+    Keyword,
     comma_or_semi,
     block_or_stmt,
     importStatement,
@@ -175,7 +176,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::importStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::classStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::traitStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::extendStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::controlFlow(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::assignStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::defineStatement(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| self::expression(state)))
+                    self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::Keyword(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::importStatement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::Keyword(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::classStatement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::Keyword(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::traitStatement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::Keyword(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::extendStatement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::Keyword(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::controlFlow(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::Keyword(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assignStatement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(true, |state| self::Keyword(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::defineStatement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| self::expression(state)))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -189,6 +190,11 @@ impl ::pest::Parser<Rule> for SMParser {
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
+                pub fn Keyword(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Keyword, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("using").or_else(|state| state.match_string("class")).or_else(|state| state.match_string("trait")).or_else(|state| state.match_string("extends")).or_else(|state| state.match_string("if")).or_else(|state| state.match_string("for")).or_else(|state| state.match_string("return")).or_else(|state| state.match_string("break")).or_else(|state| state.match_string("pass")).or_else(|state| state.match_string("let")).or_else(|state| state.match_string("def")).and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
                 pub fn comma_or_semi(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
                     self::Comma(state).or_else(|state| self::Semicolon(state))
                 }
@@ -990,6 +996,7 @@ impl ::pest::Parser<Rule> for SMParser {
             Rule::statement => rules::statement(state),
             Rule::emptyStatement => rules::emptyStatement(state),
             Rule::eos => rules::eos(state),
+            Rule::Keyword => rules::Keyword(state),
             Rule::comma_or_semi => rules::comma_or_semi(state),
             Rule::block_or_stmt => rules::block_or_stmt(state),
             Rule::importStatement => rules::importStatement(state),
-- 
2.43.0


From d59895262838781b8e0b9f658dbab4a4d9982525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 30/39] fix: a call may be the first factor of a juxtaposition

---
 projects/sm-ast/src/parser/parse.rs | 4 +++-
 projects/sm-parser/simple-math.pest | 7 +++++--
 projects/sm-parser/src/sm_parser.rs | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 763f1fd..7d10b3d 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -144,7 +144,6 @@ impl ParserSettings {
         match pair.as_rule() {
             Rule::expr => self.parse_expr(pair),
             Rule::data => self.parse_data(pair),
-            Rule::apply_call => self.parse_apply_call(pair),
             Rule::space_call => self.parse_space_call(pair),
             _ => debug_cases!(pair),
         }
@@ -210,6 +209,9 @@ impl ParserSettings {
                 _ => debug_cases!(pair),
             };
         }
+        if stack.len() == 1 {
+            return stack.remove(0);
+        }
         let p = Parameter { arguments: stack, options: Default::default(), position };
         return AST::Function(infix_map("*"), vec![p]);
     }
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 6d94a2b..8db8dd1 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -116,10 +116,13 @@ function_module = {Dot ~ (SYMBOL ~ Dot)*}
 expression =  {expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
-node       =  {"(" ~ (WHITESPACE|COMMENT)* ~ expr ~ (WHITESPACE|COMMENT)* ~ ")"|apply_call|derivative|space_call|data}
+node       =  {"(" ~ (WHITESPACE|COMMENT)* ~ expr ~ (WHITESPACE|COMMENT)* ~ ")"|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
-space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
+space_call = ${
+    apply_call ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))*
+  | (Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+
+}
 /*====================================================================================================================*/
 //!#E06C75: type_hint|generic_type|parametric_types_pair
 type_expr = _{term~ (TypeInfix ~term)*}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 4569193..98e2f1c 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -416,7 +416,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn node(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| state.repeat(|state| self::WHITESPACE(state).or_else(|state| state.restore_on_err(|state| self::COMMENT(state))))).and_then(|state| self::expr(state)).and_then(|state| state.repeat(|state| self::WHITESPACE(state).or_else(|state| state.restore_on_err(|state| self::COMMENT(state))))).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
+                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| state.repeat(|state| self::WHITESPACE(state).or_else(|state| state.restore_on_err(|state| self::COMMENT(state))))).and_then(|state| self::expr(state)).and_then(|state| state.repeat(|state| self::WHITESPACE(state).or_else(|state| state.restore_on_err(|state| self::COMMENT(state))))).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -431,7 +431,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn space_call(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.sequence(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.restore_on_err(|state| state.sequence(|state| self::apply_call(state).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))).or_else(|state| state.sequence(|state| self::Number(state).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From f47a24f2c810081b6d9c7d7831bec5c029d66423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 31/39] fix: the left side of a dot is not inserted into an
 operator on its right side

---
 projects/sm-ast/src/parser/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 7d10b3d..21af348 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -1,5 +1,5 @@
 use crate::{
-    ast::{Expression, Parameter, Position, Symbol},
+    ast::{Expression, Parameter, Position, Symbol, SymbolKind},
     parser::{infix_map, prefix_map, suffix_map, ParserSettings, CLIMBER},
     SMError, SMResult, ToWolfram, AST,
 };
@@ -158,7 +158,7 @@ impl ParserSettings {
                 let p2 = Parameter { arguments: vec![lhs], options: Default::default(), position: position.clone() };
                 AST::Function(rs, vec![p2])
             }
-            AST::Function(rs, mut p) => {
+            AST::Function(rs, mut p) if rs.kind == SymbolKind::Normal => {
                 let old = &mut p[0].arguments;
                 let mut new = vec![lhs];
                 new.extend_from_slice(&old);
-- 
2.43.0


From d2e5a4c03abc1a67207f79ca46016588b5c9a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 32/39] fix: parsing nested subscripts takes linear instead of
 exponential time

---
 projects/sm-ast/src/parser/parse.rs | 7 +++++--
 projects/sm-parser/simple-math.pest | 6 +++---
 projects/sm-parser/src/sm_parser.rs | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 21af348..12ab764 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -269,9 +269,10 @@ impl ParserSettings {
         let mut start = AST::integer(1);
         let mut end = AST::symbol("std::core::All");
         let mut step = AST::integer(1);
+        let mut is_span = false;
         for pair in pairs.into_inner() {
             match pair.as_rule() {
-                Rule::Colon => continue,
+                Rule::Colon => is_span = true,
                 Rule::Start => {
                     let e = pair.into_inner().nth(0).unwrap();
                     start = self.parse_expr(e)
@@ -284,10 +285,12 @@ impl ParserSettings {
                     let e = pair.into_inner().nth(0).unwrap();
                     step = self.parse_expr(e);
                 }
-                Rule::expr => return self.parse_expr(pair),
                 _ => unreachable!(),
             };
         }
+        if !is_span {
+            return start;
+        }
         let s = Symbol::from("std::core::Span");
         let p = Parameter { arguments: vec![start, end, step], options: Default::default(), position };
         return AST::Function(s, vec![p]);
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8db8dd1..8a2f7d6 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -140,10 +140,10 @@ list = !{"[" ~ "]" | "[" ~ expr ~ (Comma ~ expr)* ~ Comma? ~ "]"}
 slice = !{"[" ~ index ~ (Comma ~ index)* ~ Comma? ~ "]"}
 key_valid =!{Integer | SYMBOL | String}
 key_value =!{key_valid ~ Colon ~ expr}
+// every part is parsed only once, nested subscripts would take exponential time otherwise
 index ={
-    Start? ~ Colon ~ End? ~ Colon ~ Step?
-  | Start? ~ Colon ~ End?
-  | expr
+    Colon ~ End? ~ (Colon ~ Step?)?
+  | Start ~ (Colon ~ End? ~ (Colon ~ Step?)?)?
 }
 Start = {expr}
 End = {expr}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 98e2f1c..13358ac 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -481,7 +481,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn index(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::index, |state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))).or_else(|state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))))).or_else(|state| state.restore_on_err(|state| self::expr(state))))
+                    state.rule(Rule::index, |state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state)))))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::Start(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))))))))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From b522e8fd9f7f1c6206f43906e3fd84343aa039e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 33/39] fix: digits right after a number are an error, 010 is
 not 0*10 and 0b12 is not 1*2

---
 projects/sm-parser/simple-math.pest | 7 ++++---
 projects/sm-parser/src/sm_parser.rs | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8a2f7d6..131b587 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -152,10 +152,11 @@ Step = {expr}
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
 Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
-Integer = @{"0"|Positive}
+// a digit right after a number is not another factor
+Integer = @{"0" ~ !((^"b"|^"o"|^"x")? ~ ASCII_DIGIT)|Positive}
 Byte    = ${
-    ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
-  | ^"0o" ~ (Underline? ~ ASCII_OCT_DIGIT)+
+    ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+ ~ !ASCII_DIGIT
+  | ^"0o" ~ (Underline? ~ ASCII_OCT_DIGIT)+ ~ !ASCII_DIGIT
   | ^"0x" ~ (Underline? ~ ASCII_HEX_DIGIT)+
 }
 /*====================================================================================================================*/
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 13358ac..0865611 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -511,12 +511,12 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Integer(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Integer, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("0").or_else(|state| self::Positive(state))))
+                    state.rule(Rule::Integer, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("0").and_then(|state| state.lookahead(false, |state| state.sequence(|state| state.optional(|state| state.match_insensitive("b").or_else(|state| state.match_insensitive("o")).or_else(|state| state.match_insensitive("x"))).and_then(|state| self::ASCII_DIGIT(state)))))).or_else(|state| self::Positive(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Byte(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Byte, |state| state.sequence(|state| state.match_insensitive("0b").and_then(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_BIN_DIGIT(state)))).and_then(|state| state.repeat(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_BIN_DIGIT(state)))))).or_else(|state| state.sequence(|state| state.match_insensitive("0o").and_then(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_OCT_DIGIT(state)))).and_then(|state| state.repeat(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_OCT_DIGIT(state))))))).or_else(|state| state.sequence(|state| state.match_insensitive("0x").and_then(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_HEX_DIGIT(state)))).and_then(|state| state.repeat(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_HEX_DIGIT(state)))))))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Byte, |state| state.sequence(|state| state.match_insensitive("0b").and_then(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_BIN_DIGIT(state)))).and_then(|state| state.repeat(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_BIN_DIGIT(state))))).and_then(|state| state.lookahead(false, |state| self::ASCII_DIGIT(state)))).or_else(|state| state.sequence(|state| state.match_insensitive("0o").and_then(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_OCT_DIGIT(state)))).and_then(|state| state.repeat(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_OCT_DIGIT(state))))).and_then(|state| state.lookahead(false, |state| self::ASCII_DIGIT(state))))).or_else(|state| state.sequence(|state| state.match_insensitive("0x").and_then(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_HEX_DIGIT(state)))).and_then(|state| state.repeat(|state| state.sequence(|state| state.optional(|state| self::Underline(state)).and_then(|state| self::ASCII_HEX_DIGIT(state)))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From d1743e3f5211f900b044b1a28d136725283c92e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 34/39] =?UTF-8?q?fix:=20=E2=88=B7=20joins=20the=20names=20?=
 =?UTF-8?q?of=20a=20path=20as=20::=20does?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/ast/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 5ac1c7b..4daf8ef 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -74,7 +74,7 @@ impl Display for Position {
 
 impl From<&str> for Symbol {
     fn from(s: &str) -> Self {
-        let mut ns = s.split("::").map(String::from).collect_vec();
+        let mut ns = s.split("::").flat_map(|s| s.split('∷')).map(String::from).collect_vec();
         let n = ns.pop().unwrap();
         Symbol { name_space: ns, name: n, kind: SymbolKind::Normal, attributes: 0 }
     }
-- 
2.43.0


From 7c136838e94fa3de2fbac549698dc65503558110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 35/39] fix: true, false and null keep their value as factors
 of a juxtaposition

---
 projects/sm-ast/src/parser/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 12ab764..eac17ff 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -197,9 +197,10 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::WHITESPACE => continue,
-                Rule::Symbol => {
-                    stack.push(AST::symbol(pair.as_str()));
-                }
+                Rule::Symbol => match pair.as_str() {
+                    "null" | "true" | "false" => stack.push(self.parse_special(pair)),
+                    s => stack.push(AST::symbol(s)),
+                },
                 Rule::Integer => {
                     stack.push(self.parse_integer(pair));
                 }
-- 
2.43.0


From e7161fc30c6c290e7875a0f72adeeb92d57b8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 36/39] =?UTF-8?q?fix:=20=C3=97=20and=20=C3=B7=20are=20time?=
 =?UTF-8?q?s=20and=20divide,=20evaluated=20and=20displayed=20as=20such?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 6c45ea4..c965096 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -34,8 +34,8 @@ pub fn infix_map(text: &str) -> Symbol {
     let (n, p) = match text {
         "+" => ("add", 80),
         "-" => ("subtract", 80),
-        "*" => ("times", 140),
-        "/" => ("divide", 145),
+        "*" | "×" => ("times", 140),
+        "/" | "÷" => ("divide", 145),
         "//" => ("quotient", 140),
         "^" => ("power", 150),
         _ => (text, 170),
-- 
2.43.0


From 23ac62dff46fa4c17def83ac0fe2ccd7742e4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 37/39] fix: the TeX form of an empty list is empty braces
 instead of a panic

---
 projects/sm-ast/src/traits/tex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index d7278b6..8549fc2 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -34,7 +34,7 @@ impl ToTex for AST {
                         format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
                     }
                     "List" => {
-                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap();
+                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(1);
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
                     }
-- 
2.43.0


From 7ee972913049720b02851a0ab2351fc598ec2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 38/39] fix: the TeX form of a curried trigonometric call keeps
 the later argument groups

---
 projects/sm-ast/src/traits/tex/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index 8549fc2..34f549c 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -26,12 +26,13 @@ impl ToTex for AST {
                     ["std", "suffix"] => unimplemented!(),
                     _ => (),
                 }
+                let rest = || p.iter().skip(1).map(|e| e.to_tex()).join("");
                 match s.name.as_ref() {
                     "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "arcsin" | "arccos" | "arctan" => {
-                        format!(r"\\{}{}", s, omit_brackets_function(&p[0]))
+                        format!(r"\\{}{}{}", s, omit_brackets_function(&p[0]), rest())
                     }
                     "arccot" | "arcsec" | "arccsc" | "arcsinh" | "arccosh" | "arctanh" | "arccoth" | "arcsech" | "arccsch" => {
-                        format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
+                        format!(r"\\operatorname{{{}}}{}{}", s, omit_brackets_function(&p[0]), rest())
                     }
                     "List" => {
                         let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(1);
-- 
2.43.0


From dd33f230aa33da814dcfeed1c38fd636150338cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 39/39] fix: the TeX form of a sum or product shows every
 operand, not only the first two

---
 projects/sm-ast/src/traits/tex/utils.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 44f1474..d5fc97e 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -6,14 +6,12 @@ use crate::{
 use itertools::Itertools;
 
 pub(crate) fn infix_tex(s: &Symbol, p: &Parameter) -> String {
-    let lhs = &p.arguments[0];
-    let rhs = &p.arguments[1];
     let ops = match s.name.as_str() {
-        "add" => "+",
-        "times" => return format!("{} {}", lhs, rhs),
-        _ => &s.name,
+        "add" => " + ".to_string(),
+        "times" => " ".to_string(),
+        name => format!(" {} ", name),
     };
-    format!("{} {} {}", lhs, ops, rhs)
+    p.arguments.iter().join(&ops)
 }
 
 pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
-- 
2.43.0

