From 2fd157e0082042da065c641d01a231ddf84f8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 1/5] fix: reject Vector branching factors that do not fit in
 usize

Vector::new_with_bits accepted any positive number of bits, but with 64 or
more the capacity computation shifts by more than the word size: the second
element overflowed (a panic with overflow checks, lost elements without).
---
 src/vector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 5a0d73b..a265675 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -294,6 +294,7 @@ where
     #[must_use]
     pub fn new_with_bits(bits: u8) -> Vector<T, P> {
         assert!(bits > 0, "number of bits for the vector must be positive");
+        assert!(u32::from(bits) < usize::BITS, "number of bits for the vector is too big");
 
         Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
     }
-- 
2.43.0


From bee4e29032a9f4e3b3f8dffe5552c3dd87fbd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 2/5] fix: drop list nodes iteratively when another owner goes
 away meanwhile

---
 src/list/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1742738..1743acb 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -420,6 +420,27 @@ where
     }
 }
 
+// When another owner of a node goes away while we drop a list the above stops early, and the rest is
+// dropped with the node.  This must not recurse either.
+impl<T, P> Drop for Node<T, P>
+where
+    P: SharedPointerKind,
+{
+    fn drop(&mut self) {
+        let mut next = self.next.take();
+        while let Some(node) = next {
+            match SharedPointer::try_unwrap(node) {
+                Ok(mut node) => {
+                    next = node.next.take();
+                }
+                _ => {
+                    break;
+                }
+            }
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct IterPtr<'a, T, P>
 where
-- 
2.43.0


From 644ee86ddd21f74fb2f10c2b417c1de1c4b23c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 3/5] fix: do not allocate as much as serialized data announces
 when deserializing a list

---
 src/list/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1743acb..bc33de3 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -512,6 +512,8 @@ pub mod serde {
         }
     }
 
+    const MAX_PREALLOCATED_ELEMENTS: usize = 4096;
+
     struct ListVisitor<T, P> {
         _phantom_t: PhantomData<T>,
         _phantom_p: PhantomData<P>,
@@ -532,11 +534,9 @@ pub mod serde {
         where
             A: SeqAccess<'de>,
         {
-            let mut vec: Vec<T> = if let Some(capacity) = seq.size_hint() {
-                Vec::with_capacity(capacity)
-            } else {
-                Vec::new()
-            };
+            // The size hint comes from the input, so it must not be trusted with a big allocation.
+            let capacity = seq.size_hint().unwrap_or(0).min(MAX_PREALLOCATED_ELEMENTS);
+            let mut vec: Vec<T> = Vec::with_capacity(capacity);
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
-- 
2.43.0


From 19e6f99f73d158a5a5c6285d5ddd5607e3db4588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 4/5] fix: do not allocate the upper bound of the size hint
 when collecting into a list

---
 src/list/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index bc33de3..1141ee6 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -383,8 +383,9 @@ where
 {
     fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> List<T, P> {
         let iter = into_iter.into_iter();
-        let (min_size, max_size_hint) = iter.size_hint();
-        let mut vec: Vec<T> = Vec::with_capacity(max_size_hint.unwrap_or(min_size));
+        // The upper bound may be arbitrarily bigger than the number of elements.
+        let (min_size, _) = iter.size_hint();
+        let mut vec: Vec<T> = Vec::with_capacity(min_size);
 
         for e in iter {
             vec.push(e);
-- 
2.43.0


From 1242bb1ab6d56631785ae70f1bb48fdf0b87ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 5/5] fix: reject a hash trie degree of one

---
 src/map/hash_trie_map/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 4ded787..e33269b 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -750,6 +750,7 @@ where
         degree: u8,
     ) -> HashTrieMap<K, V, P, H> {
         assert!(degree.is_power_of_two(), "degree must be a power of two");
+        assert!(degree > 1, "degree is too small");
         assert!(degree <= DEFAULT_DEGREE, "degree is too big");
 
         HashTrieMap {
-- 
2.43.0

