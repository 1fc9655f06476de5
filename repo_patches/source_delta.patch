From 21947eb6ec8748be7ae54231b10056cd7c2ea72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 1/6] fix: DecimalAmount::from_str panicked on a dot followed
 by 256 digits

---
 common/src/primitives/amount/decimal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index b8ba9fd..78be0da 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -153,7 +153,8 @@ impl std::str::FromStr for DecimalAmount {
         let int: UnsignedIntType = empty_to_zero(int_str).parse()?;
         let frac: UnsignedIntType = empty_to_zero(frac_str).parse()?;
 
-        let decimals: u8 = frac_str.len().try_into().expect("Checked string length above");
+        // Note: the length check above also admits a dot followed by `u8::MAX + 1` digits.
+        let decimals: u8 = frac_str.len().try_into().map_err(|_| ParseError::StringTooLong)?;
 
         let mantissa = if int == 0 {
             Some(0)
-- 
2.43.0


From abf987cad363bffc20cc457ca06b0e34047882c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 2/6] fix: DecimalAmount::with_decimals failed on zero with 39
 or more extra decimals

---
 common/src/primitives/amount/decimal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index 78be0da..9133f3c 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -73,7 +73,11 @@ impl DecimalAmount {
     /// Change the number of decimals. Can only increase decimals, otherwise we risk losing digits.
     pub fn with_decimals(self, decimals: u8) -> Option<Self> {
         let extra_decimals = decimals.checked_sub(self.decimals)?;
-        let mantissa = self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?;
+        let mantissa = if self.mantissa == 0 {
+            0
+        } else {
+            self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?
+        };
         Some(Self::from_uint_decimal(mantissa, decimals))
     }
 
-- 
2.43.0


From 7172fb03cddc6595870c721c390e90774ef9ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 3/6] fix: Rational comparison treated zeros with different
 denominators as unequal

---
 common/src/primitives/rational.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/common/src/primitives/rational.rs b/common/src/primitives/rational.rs
index 0bc8b9e..3945817 100644
--- a/common/src/primitives/rational.rs
+++ b/common/src/primitives/rational.rs
@@ -54,10 +54,6 @@ impl<T: Into<Uint512> + ComparableType + Ord + Copy> Ord for Rational<T> {
             return self.numer.cmp(&other.numer);
         }
 
-        if self.numer == other.numer {
-            return other.denom.cmp(&self.denom);
-        }
-
         let self_numer_big: Uint512 = self.numer.into();
         let self_denom_big: Uint512 = self.denom.into();
 
-- 
2.43.0


From f118661783ca654e182b5d58cae7ef8a6d99749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 4/6] fix: multi-root graph traversal emitted roots before
 their descendants and repeated roots

---
 utils/src/graph_traversals.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/utils/src/graph_traversals.rs b/utils/src/graph_traversals.rs
index 2418201..2070dac 100644
--- a/utils/src/graph_traversals.rs
+++ b/utils/src/graph_traversals.rs
@@ -29,20 +29,28 @@ pub fn dag_depth_postorder_multiroot<'a, T, RI, I, F>(
 ) -> impl Iterator<Item = T> + 'a
 where
     T: Clone + Ord + 'a,
-    RI::IntoIter: DoubleEndedIterator,
     RI: IntoIterator<Item = T> + 'a,
     I: IntoIterator<Item = T> + 'a,
     F: Fn(&T) -> I + 'a,
 {
+    // Roots that have not been looked at yet. They are only pushed onto the stack once everything
+    // reachable from the previous ones has been emitted, because a root may be a duplicate or
+    // a descendant of another root.
+    let mut roots = roots.into_iter();
+
     // Stack of items paired with iterator over the item's children that have to be visited before
     // the item itself is emitted.
-    let mut stack: Vec<_> =
-        roots.into_iter().rev().map(|x| (children(&x).into_iter(), x)).collect();
+    let mut stack = Vec::new();
 
     // Keep track of already visited items
-    let mut visited: BTreeSet<T> = stack.iter().map(|x| x.1.clone()).collect();
+    let mut visited = BTreeSet::<T>::new();
 
     let iter_fn = move || {
+        if stack.is_empty() {
+            let root = roots.find(|root| visited.insert(root.clone()))?;
+            stack.push((children(&root).into_iter(), root));
+        }
+
         stack.pop().map(|(mut top_children, mut top_item)| {
             // Keep pushing items onto the stack until we find one with no further children.
             while let Some(next_top_item) = top_children.next() {
-- 
2.43.0


From 4391acf7545d973ee7bb920e859da0470faf0758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 5/6] fix: time lock check panicked on a block count that
 overflows the height

Spending an output locked with ForBlockCount(n), where n fits into i64 but the
output's height plus n doesn't, made the script checker panic inside
`BlockHeight + BlockDistance` instead of rejecting the input.
---
 mintscript/src/checker/timelock.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mintscript/src/checker/timelock.rs b/mintscript/src/checker/timelock.rs
index 0e6978b..8895f7b 100644
--- a/mintscript/src/checker/timelock.rs
+++ b/mintscript/src/checker/timelock.rs
@@ -15,7 +15,7 @@
 
 use common::{
     chain::{block::timestamp::BlockTimestamp, timelock::OutputTimeLock},
-    primitives::{BlockDistance, BlockHeight},
+    primitives::BlockHeight,
 };
 
 pub trait TimelockChecker<C> {
@@ -80,8 +80,16 @@ impl<C: TimelockContext> TimelockChecker<C> for StandardTimelockChecker {
                 check_at_least(ctx.spending_time(), *required, E::TimestampLocked)
             }
             OutputTimeLock::ForBlockCount(d) => {
-                let distance = BlockDistance::new((*d).try_into().map_err(|_| E::HeightArith)?);
-                let required = (ctx.source_height()? + distance).ok_or(E::HeightArith)?;
+                let distance = i64::try_from(*d).map_err(|_| E::HeightArith)?;
+                let source_height = i64::try_from(ctx.source_height()?.into_int())
+                    .map_err(|_| E::HeightArith)?;
+                // Note: `BlockHeight + BlockDistance` panics on overflow and the lock is arbitrary
+                // (it comes from a transaction), so the addition must be checked here.
+                let required = source_height
+                    .checked_add(distance)
+                    .and_then(|height| u64::try_from(height).ok())
+                    .map(BlockHeight::new)
+                    .ok_or(E::HeightArith)?;
                 check_at_least(ctx.spending_height(), required, E::HeightLocked)
             }
             OutputTimeLock::ForSeconds(dt) => {
-- 
2.43.0


From 3b3980c9c0362f5d46678dc1c9e41e01337b4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 6/6] fix: a transaction issuing an NFT could not be
 disconnected by the verifier that connected it

---
 .../src/transaction_verifier/token_issuance_cache.rs     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs b/chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs
index 9027b37..795c11c 100644
--- a/chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs
+++ b/chainstate/tx-verifier/src/transaction_verifier/token_issuance_cache.rs
@@ -186,9 +186,8 @@ impl TokenIssuanceCache {
                 }
             }
             Entry::Occupied(_) => {
-                return Err(ConnectTransactionError::TokensError(
-                    TokensError::InvariantBrokenRegisterIssuanceWithDuplicateId(token_id),
-                ));
+                // The cached state takes precedence over the storage; whether the operation
+                // is allowed in this state is checked by the caller.
             }
         }
         Ok(())
@@ -203,7 +202,9 @@ impl TokenIssuanceCache {
     }
 
     pub fn del_token_aux_data(&mut self, token_id: &TokenId) -> Result<(), TokensError> {
-        self.insert_aux_data(*token_id, CachedAuxDataOp::Erase)
+        // Note: the token may have been issued in this cache.
+        self.data.insert(*token_id, CachedAuxDataOp::Erase);
+        Ok(())
     }
 
     pub fn set_token_id(
-- 
2.43.0

