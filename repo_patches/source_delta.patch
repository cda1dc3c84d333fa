From 8ad5d8bf74127ab217b70c245c7a8003e904d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 01/12] fix: refuse a decimal amount with more than 255
 fraction digits instead of panicking

---
 common/src/primitives/amount/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index b8ba9fd..f6deb22 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -153,7 +153,7 @@ impl std::str::FromStr for DecimalAmount {
         let int: UnsignedIntType = empty_to_zero(int_str).parse()?;
         let frac: UnsignedIntType = empty_to_zero(frac_str).parse()?;
 
-        let decimals: u8 = frac_str.len().try_into().expect("Checked string length above");
+        let decimals: u8 = frac_str.len().try_into().map_err(|_| ParseError::StringTooLong)?;
 
         let mantissa = if int == 0 {
             Some(0)
-- 
2.43.0


From d0c82c48b0120a4bada4cb0feae4438c70a02fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 02/12] fix: do not leave stale bytes of an earlier temporary
 file in the RPC cookie

---
 rpc/src/rpc_creds.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpc/src/rpc_creds.rs b/rpc/src/rpc_creds.rs
index 45a95aa..86b11a7 100644
--- a/rpc/src/rpc_creds.rs
+++ b/rpc/src/rpc_creds.rs
@@ -48,7 +48,13 @@ fn write_file_atomically(path: &Path, data: &str) -> Result<(), std::io::Error>
         options.mode(0o600);
     }
 
-    options.create(true).write(true).open(&path_tmp)?.write_all(data.as_bytes())?;
+    // Note: truncate what a previous interrupted run (or anyone else) may have left in the temporary file
+    options
+        .create(true)
+        .write(true)
+        .truncate(true)
+        .open(&path_tmp)?
+        .write_all(data.as_bytes())?;
 
     std::fs::rename(path_tmp, path)
 }
-- 
2.43.0


From 5113394a9035e5a45457cd92c000e52937c1c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 03/12] fix: a code separator in a script branch that is not
 executed has no effect

---
 script/src/interpreter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/script/src/interpreter.rs b/script/src/interpreter.rs
index 045fbc8..da0bb78 100644
--- a/script/src/interpreter.rs
+++ b/script/src/interpreter.rs
@@ -302,8 +302,11 @@ pub fn run_script<'a, Ctx: Context>(
                 }
                 opcodes::Class::ControlFlow(cf) => match cf {
                     opcodes::ControlFlow::OP_CODESEPARATOR => {
-                        subscript = instr_iter.subscript();
-                        codesep_idx = cur_instr_num;
+                        // Like any other operation, it has no effect in a branch not executed.
+                        if executing {
+                            subscript = instr_iter.subscript();
+                            codesep_idx = cur_instr_num;
+                        }
                     }
                     opcodes::ControlFlow::OP_IF | opcodes::ControlFlow::OP_NOTIF => {
                         let cond = executing && {
-- 
2.43.0


From 4a2dd98e5b6cc22beec68c6aa54eddda99be2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 04/12] fix: read the whole push data length when formatting a
 script

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index c8ffd0e..4ac641a 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -370,7 +370,7 @@ impl Script {
                             f.write_str("<unexpected end>")?;
                             break;
                         }
-                        match read_uint(&script[index..], 1) {
+                        match read_uint(&script[index..], push_opc.data_size_bytes()) {
                             Ok(n) => {
                                 index += push_opc.data_size_bytes();
                                 n
-- 
2.43.0


From 52d72bad98924d779dc570869af7c683a247cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 05/12] fix: deserializing DataOrNoVec with serde must not
 yield an empty vector

---
 serialization/src/extras/non_empty_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serialization/src/extras/non_empty_vec.rs b/serialization/src/extras/non_empty_vec.rs
index c053a6f..823f1ef 100644
--- a/serialization/src/extras/non_empty_vec.rs
+++ b/serialization/src/extras/non_empty_vec.rs
@@ -22,6 +22,7 @@ use serialization_core::{Decode, Encode};
 /// - If the Vec has no data, it encodes to None
 /// - Some(vec![]) and None are equivalent when encoded, but when decoded result in None
 #[derive(Debug, PartialEq, Eq, Clone, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
+#[serde(from = "Option<Vec<T>>")]
 pub struct DataOrNoVec<T>(Option<Vec<T>>);
 
 impl<T> DataOrNoVec<T> {
-- 
2.43.0


From eff59c260652cf817bb2311134e369d6c5eecfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 06/12] fix: a read of zero bytes must not lose the peeked byte
 of tagged decoding

---
 serialization/tagged/src/derive_support.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/serialization/tagged/src/derive_support.rs b/serialization/tagged/src/derive_support.rs
index d8961a0..3b6bf0a 100644
--- a/serialization/tagged/src/derive_support.rs
+++ b/serialization/tagged/src/derive_support.rs
@@ -59,13 +59,17 @@ impl<I: Input> Input for Peekable<'_, I> {
     fn read(&mut self, into: &mut [u8]) -> Result<(), crate::Error> {
         match self.init.take() {
             None => self.inner.read(into),
-            Some(b) => {
-                if let Some((first, rest)) = into.split_first_mut() {
+            Some(b) => match into.split_first_mut() {
+                Some((first, rest)) => {
                     *first = b;
-                    self.inner.read(rest)?;
+                    self.inner.read(rest)
                 }
-                Ok(())
-            }
+                None => {
+                    // Nothing was requested, so the peeked byte is still to be read.
+                    self.init = Some(b);
+                    Ok(())
+                }
+            },
         }
     }
 
-- 
2.43.0


From 002918daf415495c0dc64253d8b6568fdc36a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 07/12] fix: compare fractions with a zero numerator as equal

Rational::cmp compared the denominators in reverse when the numerators were
equal; for equal zero numerators this ordered 0/3 above 0/5 although both are
zero. The cross multiplication handles equal numerators correctly.
---
 common/src/primitives/rational.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/common/src/primitives/rational.rs b/common/src/primitives/rational.rs
index 0bc8b9e..3945817 100644
--- a/common/src/primitives/rational.rs
+++ b/common/src/primitives/rational.rs
@@ -54,10 +54,6 @@ impl<T: Into<Uint512> + ComparableType + Ord + Copy> Ord for Rational<T> {
             return self.numer.cmp(&other.numer);
         }
 
-        if self.numer == other.numer {
-            return other.denom.cmp(&self.denom);
-        }
-
         let self_numer_big: Uint512 = self.numer.into();
         let self_denom_big: Uint512 = self.denom.into();
 
-- 
2.43.0


From 77acd1d9826bdf831cc03d051818763b1322f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 08/12] fix: yield every item reachable from several roots
 once, after its children

---
 utils/src/graph_traversals.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils/src/graph_traversals.rs b/utils/src/graph_traversals.rs
index 2418201..d4cf5b3 100644
--- a/utils/src/graph_traversals.rs
+++ b/utils/src/graph_traversals.rs
@@ -34,15 +34,23 @@ where
     I: IntoIterator<Item = T> + 'a,
     F: Fn(&T) -> I + 'a,
 {
+    let mut roots = roots.into_iter();
+
     // Stack of items paired with iterator over the item's children that have to be visited before
     // the item itself is emitted.
-    let mut stack: Vec<_> =
-        roots.into_iter().rev().map(|x| (children(&x).into_iter(), x)).collect();
+    let mut stack = Vec::new();
 
     // Keep track of already visited items
-    let mut visited: BTreeSet<T> = stack.iter().map(|x| x.1.clone()).collect();
+    let mut visited = BTreeSet::<T>::new();
 
     let iter_fn = move || {
+        // Only start with the next root when all the items reachable from the previous ones have
+        // been emitted, otherwise a root reachable from another root would be emitted after it.
+        if stack.is_empty() {
+            let root = roots.find(|root| visited.insert(root.clone()))?;
+            stack.push((children(&root).into_iter(), root));
+        }
+
         stack.pop().map(|(mut top_children, mut top_item)| {
             // Keep pushing items onto the stack until we find one with no further children.
             while let Some(next_top_item) = top_children.next() {
-- 
2.43.0


From a6349103f9a6473aac00c1a05363022649f1177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 09/12] fix: refuse a token supply change that has no inverse
 instead of panicking

---
 tokens-accounting/src/storage/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokens-accounting/src/storage/db.rs b/tokens-accounting/src/storage/db.rs
index 30896fc..d26d0c1 100644
--- a/tokens-accounting/src/storage/db.rs
+++ b/tokens-accounting/src/storage/db.rs
@@ -84,7 +84,7 @@ impl<S: TokensAccountingStorageWrite> TokensAccountingDB<S> {
                 } else {
                     self.0.del_circulating_supply(&id).log_err().map_err(|_| Error::StorageWrite)?
                 };
-                let balance_undo = delta.neg().expect("amount negation some");
+                let balance_undo = delta.neg().ok_or(accounting::Error::DeltaUndoNegationError)?;
                 Ok((id, balance_undo))
             })
             .collect::<Result<BTreeMap<_, _>, _>>()?;
-- 
2.43.0


From e8f8590752418d1f529167a34b104181b93d1361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 10/12] fix: write the smallest script number instead of
 panicking

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index 4ac641a..9632250 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -107,7 +107,7 @@ pub fn build_scriptint(n: i64) -> Vec<u8> {
 
     let neg = n < 0;
 
-    let mut abs = if neg { -n } else { n } as usize;
+    let mut abs = n.unsigned_abs();
     let mut v = vec![];
     while abs > 0xFF {
         v.push((abs & 0xFF) as u8);
-- 
2.43.0


From f8d711dac342343e2360c5606ec6d033173ab5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 11/12] fix: fractions with equal values compare as equal

---
 common/src/primitives/rational.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/rational.rs b/common/src/primitives/rational.rs
index 3945817..33ceda2 100644
--- a/common/src/primitives/rational.rs
+++ b/common/src/primitives/rational.rs
@@ -17,7 +17,7 @@ use std::fmt::{Debug, Display};
 
 use crate::{Uint256, Uint512};
 
-#[derive(Copy, Clone, Debug, Eq, PartialEq)]
+#[derive(Copy, Clone, Debug)]
 pub struct Rational<T> {
     numer: T,
     denom: T,
@@ -70,6 +70,15 @@ impl<T: Into<Uint512> + ComparableType + Ord + Copy> PartialOrd for Rational<T>
     }
 }
 
+// Note: equality must agree with the ordering, i.e. 1/2 and 2/4 are the same number.
+impl<T: Into<Uint512> + ComparableType + Ord + Copy> PartialEq for Rational<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other) == std::cmp::Ordering::Equal
+    }
+}
+
+impl<T: Into<Uint512> + ComparableType + Ord + Copy> Eq for Rational<T> {}
+
 impl From<Rational<u128>> for Rational<Uint256> {
     fn from(other: Rational<u128>) -> Self {
         Self::new(other.numer.into(), other.denom.into())
-- 
2.43.0


From 497913d887e4e2ae26789405e4cc1e1771113756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 12/12] fix: order of extended keys looks at all their parts

---
 crypto/src/key/secp256k1/extended_keys.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crypto/src/key/secp256k1/extended_keys.rs b/crypto/src/key/secp256k1/extended_keys.rs
index aba0647..730dfb9 100644
--- a/crypto/src/key/secp256k1/extended_keys.rs
+++ b/crypto/src/key/secp256k1/extended_keys.rs
@@ -56,7 +56,11 @@ impl PartialOrd for Secp256k1ExtendedPrivateKey {
 
 impl Ord for Secp256k1ExtendedPrivateKey {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.derivation_path.cmp(&other.derivation_path)
+        // Note: all fields must be taken into account, so that the ordering agrees with equality.
+        self.derivation_path
+            .cmp(&other.derivation_path)
+            .then_with(|| self.chain_code.cmp(&other.chain_code))
+            .then_with(|| self.private_key.as_bytes().cmp(other.private_key.as_bytes()))
     }
 }
 
@@ -185,7 +189,11 @@ impl PartialOrd for Secp256k1ExtendedPublicKey {
 
 impl Ord for Secp256k1ExtendedPublicKey {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.derivation_path.cmp(&other.derivation_path)
+        // Note: all fields must be taken into account, so that the ordering agrees with equality.
+        self.derivation_path
+            .cmp(&other.derivation_path)
+            .then_with(|| self.chain_code.cmp(&other.chain_code))
+            .then_with(|| self.public_key.cmp(&other.public_key))
     }
 }
 
-- 
2.43.0

