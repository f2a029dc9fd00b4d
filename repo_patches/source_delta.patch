From 62a7dd28b5efdc557248ec264dd4191c9cf4bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 01/16] fix: hash the intended bytes of right-aligned key
 slices

---
 .../src/analyzers/slice_key_analyzer.rs                   | 2 +-
 .../src/specialized_maps/right_slice_map.rs               | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 674ab2d..3579510 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -194,7 +194,7 @@ where
         let sub = if left_justified {
             &s[subslice_index..subslice_index + subslice_len]
         } else {
-            let start = s.len() - subslice_index - 1;
+            let start = s.len() - subslice_index - subslice_len;
             &s[start..start + subslice_len]
         };
 
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 889db70..7091cba 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -34,7 +34,7 @@ where
         let codes = payload.iter().map(|entry| {
             let key = &entry.0;
             if key.len() >= range.end {
-                key.hash(&bh, key.len() - range.start..key.len() - range.end)
+                key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
@@ -43,7 +43,7 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.start..k.len() - range.end)
+                k.hash(&bh, k.len() - range.end..k.len() - range.start)
             }),
             bh,
             range,
@@ -76,10 +76,10 @@ where
     where
         Q: SliceHash + Len,
     {
-        let hash_code = if key.len() >= self.range.start {
+        let hash_code = if key.len() >= self.range.end {
             key.hash(
                 &self.bh,
-                key.len() - self.range.start..key.len() - self.range.end,
+                key.len() - self.range.end..key.len() - self.range.start,
             )
         } else {
             0
-- 
2.43.0


From 0681c32a39d8487f233e977705b7e26954d205b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 02/16] fix: build slice maps without reading past the end of
 short keys

---
 .../src/specialized_maps/left_slice_map.rs                  | 6 +++++-
 .../src/specialized_maps/right_slice_map.rs                 | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index bd4a22e..98e8e61 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -43,7 +43,11 @@ where
 
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, range.clone())
+                if k.len() >= range.end {
+                    k.hash(&bh, range.clone())
+                } else {
+                    0
+                }
             }),
             bh,
             range,
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 7091cba..cf2ccf0 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -43,7 +43,11 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                if k.len() >= range.end {
+                    k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                } else {
+                    0
+                }
             }),
             bh,
             range,
-- 
2.43.0


From 98ab55348726fabc17d30921de6758d6226aceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 03/16] fix: empty IntegerRangeMap panicked when looking up
 zero

---
 .../src/specialized_maps/integer_range_map.rs                  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index e30533b..3bfc147 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -28,7 +28,8 @@ where
     pub fn from_vec(mut payload: Vec<(K, V)>) -> Self {
         if payload.is_empty() {
             return Self {
-                min: K::zero(),
+                // an inverted range, so that no key is ever considered in range
+                min: K::one(),
                 max: K::zero(),
                 entries: Box::new([]),
             };
-- 
2.43.0


From e7ec23c67d57394ec899120e6ed998b8c3b36623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 04/16] fix: IntegerRangeMap arithmetic on signed keys and
 repeated keys

---
 .../src/specialized_maps/integer_range_map.rs | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 3bfc147..2d95100 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -40,9 +40,10 @@ where
         let min = payload[0].0;
         let max = payload[payload.len() - 1].0;
 
-        assert_eq!(
-            max.sub(min).to_usize().unwrap(),
-            payload.len() - 1,
+        assert!(
+            payload
+                .windows(2)
+                .all(|w| w[0].0.checked_add(&K::one()) == Some(w[1].0)),
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
 
@@ -63,7 +64,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(self.min.borrow(), key)?;
             Some(&self.entries[index].1)
         } else {
             None
@@ -78,7 +79,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(self.min.borrow(), key)?;
             Some(&mut self.entries[index].1)
         } else {
             None
@@ -120,7 +121,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(self.min.borrow(), key)?;
             Some((&self.entries[index].0, &self.entries[index].1))
         } else {
             None
@@ -153,6 +154,20 @@ impl<K, V> IntegerRangeMap<K, V> {
     }
 }
 
+/// The number of steps from `min` up to `key`.
+#[inline]
+fn distance<Q>(min: &Q, key: &Q) -> Option<usize>
+where
+    Q: PrimInt,
+{
+    match key.checked_sub(min) {
+        Some(d) => d.to_usize(),
+
+        // the distance between two signed integers can exceed the type's maximum value
+        None => usize::try_from(key.to_i128()?.checked_sub(min.to_i128()?)?).ok(),
+    }
+}
+
 impl<K, V> Len for IntegerRangeMap<K, V> {
     fn len(&self) -> usize {
         self.entries.len()
-- 
2.43.0


From 02d62d452037d8bd7ab288e3b3691e83f4f76389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 05/16] fix: integer key analysis with repeated keys and
 overflowing spans

---
 .../src/analyzers/int_key_analyzer.rs         | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/int_key_analyzer.rs b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
index 5c5774e..3d43c75 100644
--- a/frozen-collections-core/src/analyzers/int_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
@@ -1,3 +1,4 @@
+use bitvec::prelude::*;
 use num_traits::PrimInt;
 
 /// How to treat integer keys for best performance.
@@ -16,22 +17,32 @@ where
     K: PrimInt,
     I: Iterator<Item = K>,
 {
+    let keys: Vec<K> = keys.collect();
+
     let mut min = K::max_value();
     let mut max = K::min_value();
-    let mut count = K::zero();
-    for key in keys {
-        min = min.min(key);
-        max = max.max(key);
-        count = count + K::one();
+    for key in &keys {
+        min = min.min(*key);
+        max = max.max(*key);
     }
 
-    if count == K::zero() {
-        IntKeyAnalysisResult::Normal
-    } else if max.sub(min) == count - K::one() {
-        IntKeyAnalysisResult::Range
-    } else {
-        IntKeyAnalysisResult::Normal
+    // the distance between the keys can exceed what K can represent, in which case we don't treat the keys as a range
+    let span = max.checked_sub(&min).and_then(|span| span.to_usize());
+
+    if keys.is_empty() || span != Some(keys.len() - 1) {
+        return IntKeyAnalysisResult::Normal;
     }
+
+    // repeated keys leave holes in the range
+    let mut seen: BitVec = BitVec::repeat(false, keys.len());
+    for key in &keys {
+        let index = key.sub(min).to_usize().unwrap();
+        if seen.replace(index, true) {
+            return IntKeyAnalysisResult::Normal;
+        }
+    }
+
+    IntKeyAnalysisResult::Range
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2e5531b724f53823b59eec0eed314dd70244283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 06/16] fix: count of a partially consumed set iterator

---
 frozen-collections-core/src/specialized_sets/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 96c2045..678c478 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -37,7 +37,7 @@ impl<'a, T> Iterator for Iter<'a, T> {
     where
         Self: Sized,
     {
-        self.len() - self.index
+        self.len()
     }
 }
 
-- 
2.43.0


From d057f507d861189526f098b0d5bb41bc15ed7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 07/16] fix: size hint of a partially consumed union

---
 .../src/specialized_sets/iterators.rs           | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 678c478..62219d5 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -182,7 +182,22 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.s1.len(), self.s1.len().checked_add(self.s2.len()))
+        let (s1_min, s1_max) = self.s1_iter.size_hint();
+        let (s2_min, s2_max) = self.s2_iter.size_hint();
+
+        // the larger set is visited first and in full, the values of the smaller set may all be duplicates
+        let lower = if self.s1.len() > self.s2.len() {
+            s1_min
+        } else {
+            s2_min
+        };
+
+        let upper = match (s1_max, s2_max) {
+            (Some(x), Some(y)) => x.checked_add(y),
+            _ => None,
+        };
+
+        (lower, upper)
     }
 }
 
-- 
2.43.0


From 3844be8582cb66c7be6ab12d0ca8dd9602628310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 08/16] fix: frozen_map! ignored the declared key type for
 fewer than three entries

---
 frozen-collections-core/src/macros/frozen_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 2de7e4e..8ffdf54 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -72,8 +72,9 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
     let mut kv_pairs = input.entries;
 
     if kv_pairs.len() < 3 {
+        let ty = input.ty;
         return quote!({
-            let m = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::ScanningMap<#ty, _> = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
             #(
                 (#kv_pairs),
             )*
-- 
2.43.0


From 15a51a054d1e01bfde01e9418e3dd0331382853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 09/16] fix: frozen_map! did not compile for contiguous integer
 keys

---
 frozen-collections-core/src/macros/frozen_map.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 8ffdf54..46f62ca 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -160,6 +160,19 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
         }
     );
 
+    if int_analysis == IntKeyAnalysisResult::Range {
+        // this map type has no payload size argument
+        return quote!(
+        {
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            #(
+                (#kv_pairs),
+            )*
+            ]);
+            m
+        });
+    }
+
     match slice_analysis {
         SliceKeyAnalysisResult::LeftHandSubslice {
             subslice_index,
-- 
2.43.0


From 22a9e9a0d099e0bcc477fc698c151f154e19dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 10/16] fix: SliceHash read out of bounds when given an invalid
 range

---
 frozen-collections-core/src/traits/slice_hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/traits/slice_hash.rs b/frozen-collections-core/src/traits/slice_hash.rs
index 9bbb91c..29f4872 100644
--- a/frozen-collections-core/src/traits/slice_hash.rs
+++ b/frozen-collections-core/src/traits/slice_hash.rs
@@ -12,7 +12,7 @@ impl SliceHash for String {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.as_bytes().get_unchecked(range) };
+        let b = &self.as_bytes()[range];
         h.write(b);
         h.finish()
     }
@@ -22,7 +22,7 @@ impl SliceHash for [u8] {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.get_unchecked(range) };
+        let b = &self[range];
         h.write(b);
         h.finish()
     }
-- 
2.43.0


From 74c0510a692773885f1082013d58b073f08a7a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 11/16] fix: get_many_mut handed out aliasing mutable
 references

---
 .../src/facades/frozen_map.rs                 | 19 ++++++++++--------
 .../src/specialized_maps/common_map.rs        | 20 ++++++++++---------
 .../src/specialized_maps/integer_map.rs       | 20 ++++++++++---------
 .../src/specialized_maps/integer_range_map.rs | 20 ++++++++++---------
 .../src/specialized_maps/left_slice_map.rs    | 20 ++++++++++---------
 .../src/specialized_maps/length_map.rs        | 20 ++++++++++---------
 .../src/specialized_maps/right_slice_map.rs   | 20 ++++++++++---------
 .../src/specialized_maps/scanning_map.rs      | 20 ++++++++++---------
 8 files changed, 88 insertions(+), 71 deletions(-)

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 2d080a4..9c32483 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -3,9 +3,9 @@ use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
 use std::mem::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Index;
 use std::ops::IndexMut;
+use std::ptr::null_mut;
 
 use bitvec::macros::internal::funty::Fundamental;
 
@@ -489,7 +489,6 @@ where
     /// ]);
     /// assert_eq!(got, None);
     /// ```
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<const N: usize>(&mut self, keys: [&K; N]) -> Option<[&mut V; N]> {
         // ensure key uniqueness (assumes "keys" is a relatively small array)
         for i in 0..keys.len() {
@@ -500,16 +499,20 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let mut values = [null_mut::<V>(); N];
+        for (i, key) in keys.into_iter().enumerate() {
+            let value: *mut V = self.get_mut(key)?;
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            // the keys can still designate the same value if their equality is inconsistent
+            if values[..i].contains(&value) {
+                return None;
             }
 
-            Some(result.assume_init())
+            values[i] = value;
         }
+
+        // SAFETY: the pointers are distinct and all come from the current borrow of self
+        Some(values.map(|value| unsafe { &mut *value }))
     }
 
     /// Returns `true` if the map contains a value for the specified key.
diff --git a/frozen-collections-core/src/specialized_maps/common_map.rs b/frozen-collections-core/src/specialized_maps/common_map.rs
index d638b71..d3dcfa5 100644
--- a/frozen-collections-core/src/specialized_maps/common_map.rs
+++ b/frozen-collections-core/src/specialized_maps/common_map.rs
@@ -2,10 +2,9 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr::null_mut;
 
 use num_traits::{PrimInt, Unsigned};
 
@@ -117,7 +116,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -132,16 +130,20 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let mut values = [null_mut::<V>(); N];
+        for (i, key) in keys.into_iter().enumerate() {
+            let value: *mut V = self.get_mut(key)?;
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            // the keys can still designate the same value if their equality is inconsistent
+            if values[..i].contains(&value) {
+                return None;
             }
 
-            Some(result.assume_init())
+            values[i] = value;
         }
+
+        // SAFETY: the pointers are distinct and all come from the current borrow of self
+        Some(values.map(|value| unsafe { &mut *value }))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/integer_map.rs b/frozen-collections-core/src/specialized_maps/integer_map.rs
index 7042e39..bb58ff3 100644
--- a/frozen-collections-core/src/specialized_maps/integer_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_map.rs
@@ -1,9 +1,8 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr::null_mut;
 
 use num_traits::{AsPrimitive, PrimInt, Unsigned};
 
@@ -82,7 +81,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -97,16 +95,20 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let mut values = [null_mut::<V>(); N];
+        for (i, key) in keys.into_iter().enumerate() {
+            let value: *mut V = self.get_mut(key)?;
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            // the keys can still designate the same value if their equality is inconsistent
+            if values[..i].contains(&value) {
+                return None;
             }
 
-            Some(result.assume_init())
+            values[i] = value;
         }
+
+        // SAFETY: the pointers are distinct and all come from the current borrow of self
+        Some(values.map(|value| unsafe { &mut *value }))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 2d95100..237b32f 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -1,8 +1,7 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
+use std::ptr::null_mut;
 
 use num_traits::PrimInt;
 
@@ -86,7 +85,6 @@ impl<K, V> IntegerRangeMap<K, V> {
         }
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -101,16 +99,20 @@ impl<K, V> IntegerRangeMap<K, V> {
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let mut values = [null_mut::<V>(); N];
+        for (i, key) in keys.into_iter().enumerate() {
+            let value: *mut V = self.get_mut(key)?;
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            // the keys can still designate the same value if their equality is inconsistent
+            if values[..i].contains(&value) {
+                return None;
             }
 
-            Some(result.assume_init())
+            values[i] = value;
         }
+
+        // SAFETY: the pointers are distinct and all come from the current borrow of self
+        Some(values.map(|value| unsafe { &mut *value }))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index 98e8e61..2c1262d 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -2,10 +2,9 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr::null_mut;
 
 use num_traits::{PrimInt, Unsigned};
 
@@ -143,7 +142,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -158,16 +156,20 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let mut values = [null_mut::<V>(); N];
+        for (i, key) in keys.into_iter().enumerate() {
+            let value: *mut V = self.get_mut(key)?;
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            // the keys can still designate the same value if their equality is inconsistent
+            if values[..i].contains(&value) {
+                return None;
             }
 
-            Some(result.assume_init())
+            values[i] = value;
         }
+
+        // SAFETY: the pointers are distinct and all come from the current borrow of self
+        Some(values.map(|value| unsafe { &mut *value }))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/length_map.rs b/frozen-collections-core/src/specialized_maps/length_map.rs
index 5718997..2e36f83 100644
--- a/frozen-collections-core/src/specialized_maps/length_map.rs
+++ b/frozen-collections-core/src/specialized_maps/length_map.rs
@@ -1,9 +1,8 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr::null_mut;
 
 use bitvec::macros::internal::funty::Fundamental;
 use num_traits::{PrimInt, Unsigned};
@@ -102,7 +101,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -117,16 +115,20 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let mut values = [null_mut::<V>(); N];
+        for (i, key) in keys.into_iter().enumerate() {
+            let value: *mut V = self.get_mut(key)?;
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            // the keys can still designate the same value if their equality is inconsistent
+            if values[..i].contains(&value) {
+                return None;
             }
 
-            Some(result.assume_init())
+            values[i] = value;
         }
+
+        // SAFETY: the pointers are distinct and all come from the current borrow of self
+        Some(values.map(|value| unsafe { &mut *value }))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index cf2ccf0..fbbcd5c 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -2,10 +2,9 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr::null_mut;
 
 use num_traits::{PrimInt, Unsigned};
 
@@ -146,7 +145,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -161,16 +159,20 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let mut values = [null_mut::<V>(); N];
+        for (i, key) in keys.into_iter().enumerate() {
+            let value: *mut V = self.get_mut(key)?;
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            // the keys can still designate the same value if their equality is inconsistent
+            if values[..i].contains(&value) {
+                return None;
             }
 
-            Some(result.assume_init())
+            values[i] = value;
         }
+
+        // SAFETY: the pointers are distinct and all come from the current borrow of self
+        Some(values.map(|value| unsafe { &mut *value }))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/scanning_map.rs b/frozen-collections-core/src/specialized_maps/scanning_map.rs
index b09d24c..11aa7e0 100644
--- a/frozen-collections-core/src/specialized_maps/scanning_map.rs
+++ b/frozen-collections-core/src/specialized_maps/scanning_map.rs
@@ -1,8 +1,7 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
+use std::ptr::null_mut;
 
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
@@ -74,7 +73,6 @@ impl<K, V> ScanningMap<K, V> {
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -89,16 +87,20 @@ impl<K, V> ScanningMap<K, V> {
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let mut values = [null_mut::<V>(); N];
+        for (i, key) in keys.into_iter().enumerate() {
+            let value: *mut V = self.get_mut(key)?;
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            // the keys can still designate the same value if their equality is inconsistent
+            if values[..i].contains(&value) {
+                return None;
             }
 
-            Some(result.assume_init())
+            values[i] = value;
         }
+
+        // SAFETY: the pointers are distinct and all come from the current borrow of self
+        Some(values.map(|value| unsafe { &mut *value }))
     }
 
     #[inline]
-- 
2.43.0


From 6fb5afe08f1aec001edc8c3b777b88a9ff04dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 12/16] fix: the frozen facades treated any type named like
 String as String

---
 .../src/facades/frozen_map.rs                 |  6 +--
 .../src/facades/frozen_set.rs                 |  6 +--
 frozen-collections-core/src/facades/mod.rs    |  1 +
 .../src/facades/same_type.rs                  | 39 +++++++++++++++++++
 4 files changed, 46 insertions(+), 6 deletions(-)
 create mode 100644 frozen-collections-core/src/facades/same_type.rs

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 9c32483..229ce31 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -1,4 +1,3 @@
-use std::any::type_name;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
@@ -11,6 +10,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::same_type::is_same_type;
 use crate::specialized_maps::*;
 use crate::traits::len::Len;
 
@@ -213,9 +213,9 @@ where
         Self {
             map_impl: if payload.len() < 4 {
                 MapTypes::Scanning(ScanningMap::from_vec(payload))
-            } else if type_name::<K>() == type_name::<u32>() {
+            } else if is_same_type::<K, u32>() {
                 Self::new_u32_map(payload)
-            } else if type_name::<K>() == type_name::<String>() {
+            } else if is_same_type::<K, String>() {
                 Self::new_string_map(payload, bh)
             } else {
                 Self::new_common_map(payload, bh)
diff --git a/frozen-collections-core/src/facades/frozen_set.rs b/frozen-collections-core/src/facades/frozen_set.rs
index 22cefd9..8accfe3 100644
--- a/frozen-collections-core/src/facades/frozen_set.rs
+++ b/frozen-collections-core/src/facades/frozen_set.rs
@@ -1,4 +1,3 @@
-use std::any::type_name;
 use std::collections::HashSet;
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
@@ -9,6 +8,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::same_type::is_same_type;
 use crate::specialized_sets::{
     CommonSet, IntegerRangeSet, IntegerSet, Iter, LeftSliceSet, LengthSet, RightSliceSet,
     ScanningSet, Set,
@@ -198,9 +198,9 @@ where
         Self {
             set_impl: if payload.len() < 4 {
                 SetTypes::Scanning(ScanningSet::from_vec(payload))
-            } else if type_name::<T>() == type_name::<u32>() {
+            } else if is_same_type::<T, u32>() {
                 Self::new_u32_set(payload)
-            } else if type_name::<T>() == type_name::<String>() {
+            } else if is_same_type::<T, String>() {
                 Self::new_string_set(payload, bh)
             } else {
                 Self::new_common_set(payload, bh)
diff --git a/frozen-collections-core/src/facades/mod.rs b/frozen-collections-core/src/facades/mod.rs
index 4dabde2..ab42a11 100644
--- a/frozen-collections-core/src/facades/mod.rs
+++ b/frozen-collections-core/src/facades/mod.rs
@@ -3,6 +3,7 @@ pub use frozen_set::*;
 
 mod frozen_map;
 mod frozen_set;
+mod same_type;
 
 #[cfg(test)]
 mod frozen_map_tests;
diff --git a/frozen-collections-core/src/facades/same_type.rs b/frozen-collections-core/src/facades/same_type.rs
new file mode 100644
index 0000000..af9966a
--- /dev/null
+++ b/frozen-collections-core/src/facades/same_type.rs
@@ -0,0 +1,39 @@
+use std::any::TypeId;
+use std::marker::PhantomData;
+use std::mem::transmute;
+
+/// Whether `A` and `B` are the same type. Unlike comparing type names, this can't be fooled by another type
+/// which happens to have the same name.
+#[inline]
+pub fn is_same_type<A, B>() -> bool
+where
+    B: 'static,
+{
+    type_id::<A>() == TypeId::of::<B>()
+}
+
+/// Gets the id of a type which may contain references, ignoring lifetimes.
+#[inline]
+fn type_id<T>() -> TypeId {
+    trait AnyLifetime {
+        fn type_id(&self) -> TypeId
+        where
+            Self: 'static;
+    }
+
+    impl<T> AnyLifetime for PhantomData<T> {
+        #[inline]
+        fn type_id(&self) -> TypeId
+        where
+            Self: 'static,
+        {
+            TypeId::of::<T>()
+        }
+    }
+
+    let phantom = PhantomData::<T>;
+
+    // SAFETY: only the type's identity is looked at, no value with a fake lifetime is ever produced
+    let any = unsafe { transmute::<&dyn AnyLifetime, &(dyn AnyLifetime + 'static)>(&phantom) };
+    any.type_id()
+}
-- 
2.43.0


From f0b0e09fd395a448d604b921ee237828752c7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:31 +0000
Subject: [PATCH 13/16] fix: frozen collections hashed slices that many keys
 share

---
 .../src/analyzers/slice_key_analyzer.rs       | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 3579510..e5cd26e 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -1,5 +1,5 @@
 use std::cmp::{max, min};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::hash::{BuildHasher, Hash};
 
 /// How to treat keys which are slices for best performance.
@@ -105,8 +105,8 @@ where
     // tolerate a certain amount of duplicate subslices
     let acceptable_duplicates = ((keys.len() as f64) * ACCEPTABLE_DUPLICATE_PERCENT) as usize;
 
-    // this set is reused for each call to is_sufficiently_unique
-    let mut set = HashSet::with_capacity(keys.len());
+    // this map is reused for each call to is_sufficiently_unique
+    let mut counts = HashMap::with_capacity(keys.len());
 
     // for each subslice length, prefer the shortest length that provides enough uniqueness
     let max_subslice_len = min(min_len, MAX_SUBSLICE_LENGTH_LIMIT);
@@ -122,7 +122,7 @@ where
                 subslice_index,
                 subslice_len,
                 true,
-                &mut set,
+                &mut counts,
                 acceptable_duplicates,
                 bh,
             ) {
@@ -153,7 +153,7 @@ where
                     subslice_index,
                     subslice_len,
                     false,
-                    &mut set,
+                    &mut counts,
                     acceptable_duplicates,
                     bh,
                 ) {
@@ -179,7 +179,7 @@ fn is_sufficiently_unique<T, BH>(
     subslice_index: usize,
     subslice_len: usize,
     left_justified: bool,
-    set: &mut HashSet<u64>,
+    counts: &mut HashMap<u64, usize>,
     acceptable_duplicates: usize,
     bh: &BH,
 ) -> bool
@@ -187,7 +187,7 @@ where
     T: Hash,
     BH: BuildHasher,
 {
-    set.clear();
+    counts.clear();
 
     let mut acceptable_duplicates = acceptable_duplicates;
     for s in keys {
@@ -198,13 +198,15 @@ where
             &s[start..start + subslice_len]
         };
 
-        if !set.insert(bh.hash_one(sub)) {
-            if acceptable_duplicates == 0 {
-                return false;
-            }
-
-            acceptable_duplicates -= 1;
+        // A duplicate weighs as much as there are slices it collides with, such that a few slices shared by
+        // many keys aren't mistaken for many slices shared by a few keys.
+        let count = counts.entry(bh.hash_one(sub)).or_insert(0);
+        if acceptable_duplicates < *count {
+            return false;
         }
+
+        acceptable_duplicates -= *count;
+        *count += 1;
     }
 
     true
-- 
2.43.0


From 0eed7cc9ed7766735b1a6b0a1cd669f734b05e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:14 +0000
Subject: [PATCH 14/16] fix: frozen_map! accepts byte literals and constants as
 integer and string keys

With three or more entries, the macro panicked when a key was not an integer or string literal, although it
accepted such keys with fewer entries.
---
 frozen-collections-core/src/macros/frozen_map.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 46f62ca..bfe15e4 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -220,7 +220,10 @@ where
     let keys = kv_pairs.iter().map(|x| x.0.to_token_stream());
     let mut parsed = Vec::new();
     for key in keys {
-        let li = parse2::<LitInt>(key)?;
+        let Ok(li) = parse2::<LitInt>(key) else {
+            // the value isn't known here, e.g. a byte literal or a constant
+            return Ok(IntKeyAnalysisResult::Normal);
+        };
         let v = li.base10_parse::<K>()?;
         parsed.push(v);
     }
@@ -234,7 +237,10 @@ where
 {
     let mut parsed = Vec::new();
     for key in keys {
-        let ls = parse2::<LitStr>(key)?;
+        let Ok(ls) = parse2::<LitStr>(key) else {
+            // the value isn't known here, e.g. a constant
+            return Ok(SliceKeyAnalysisResult::Normal);
+        };
         parsed.push(ls.value());
     }
 
-- 
2.43.0


From 9dab5bba864846af96103096b66693eb796db364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 15/16] fix: hash tables accept capacity types wider than usize

---
 frozen-collections-core/src/specialized_maps/hash_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/hash_table.rs b/frozen-collections-core/src/specialized_maps/hash_table.rs
index 3fc85f9..364b435 100644
--- a/frozen-collections-core/src/specialized_maps/hash_table.rs
+++ b/frozen-collections-core/src/specialized_maps/hash_table.rs
@@ -40,7 +40,7 @@ where
                 }]),
                 entries: Box::new([]),
             };
-        } else if payload.len() > S::max_value().to_usize().unwrap() {
+        } else if S::from(payload.len()).is_none() {
             panic!("Too many payload entries for the map size S")
         }
 
-- 
2.43.0


From 8162026b8031536bdd8ea1b29e938452dc00b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:16 +0000
Subject: [PATCH 16/16] fix: frozen_map! works where the caller has its own
 String or vec!

The expansion named String and vec! without a path, so that it picked up
whatever the caller has under these names.
---
 frozen-collections-core/src/macros/frozen_map.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index bfe15e4..fabde06 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -74,7 +74,7 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
     if kv_pairs.len() < 3 {
         let ty = input.ty;
         return quote!({
-            let m: ::frozen_collections::specialized_maps::ScanningMap<#ty, _> = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::ScanningMap<#ty, _> = ::frozen_collections::specialized_maps::ScanningMap::from_vec(::std::vec![
             #(
                 (#kv_pairs),
             )*
@@ -111,12 +111,12 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
             let mut copy = Vec::with_capacity(kv_pairs.len());
             for kv in kv_pairs {
                 let original = kv.0.to_token_stream();
-                let modified = quote!(String::from(#original));
+                let modified = quote!(::std::string::String::from(#original));
                 copy.push(Entry(parse2::<Expr>(modified).unwrap(), kv.1));
             }
 
             kv_pairs = copy;
-            ty = parse2::<Type>(quote!(String)).unwrap();
+            ty = parse2::<Type>(quote!(::std::string::String)).unwrap();
         }
 
         _ => variety = KeyVariety::Common,
@@ -164,7 +164,7 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
         // this map type has no payload size argument
         return quote!(
         {
-            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _> = ::frozen_collections::specialized_maps::#map_type::from_vec(::std::vec![
             #(
                 (#kv_pairs),
             )*
@@ -179,7 +179,7 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
             subslice_len,
         } => quote!(
         {
-            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size, ::std::hash::RandomState> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size, ::std::hash::RandomState> = ::frozen_collections::specialized_maps::#map_type::from_vec(::std::vec![
             #(
                 (#kv_pairs),
             )*
@@ -192,7 +192,7 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
             subslice_len,
         } => quote!(
         {
-            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size, ::std::hash::RandomState> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size, ::std::hash::RandomState> = ::frozen_collections::specialized_maps::#map_type::from_vec(::std::vec![
             #(
                 (#kv_pairs),
             )*
@@ -202,7 +202,7 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
 
         _ => quote!(
         {
-            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size> = ::frozen_collections::specialized_maps::#map_type::from_vec(::std::vec![
             #(
                 (#kv_pairs),
             )*
-- 
2.43.0

