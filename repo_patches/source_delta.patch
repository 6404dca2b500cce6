From bc68c31b88d06715623969230316c6215f36020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 1/3] fix: validate range bounds and char boundaries when
 replacing an empty range with an empty string

replace_range returned Ok(()) for an empty replacement of an empty range before
checking that the range is in bounds and on char boundaries, so
replace_range(1000..1000, ""), try_insert_str(1, "") inside a multi-byte char
and insert_str_truncate at a non-boundary of a full string reported success.
---
 src/arraystring.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index e3d96ae..77d9f60 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -861,9 +861,6 @@ where
             with.as_ref().len(),
             with.as_ref()
         );
-        if start == end && str.is_empty() {
-            return Ok(());
-        }
         is_inside_boundary(start, end)?;
         is_inside_boundary(end, self.len())?;
         is_inside_boundary(str.len(), Self::capacity())?;
-- 
2.43.0


From 8cdb0bcf2b2afb3515eede67784bdb3f99cdf6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 2/3] fix: make SmallString occupy the documented
 size_of::<String>() bytes

ArrayString<N> occupies N + 1 bytes, so a capacity of 3 * size_of::<usize>()
made SmallString one byte bigger than String.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2750339..f2687ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,7 +143,7 @@ pub use crate::error::Error;
 /// 24 bytes in 64 bits architecture
 ///
 /// 12 bytes in 32 bits architecture
-pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 }>;
+pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 - 1 }>;
 
 /// Biggest `ArrayString<N>` supported (255 bytes of text)
 pub type MaxString = ArrayString<255>;
-- 
2.43.0


From e8ac5d760d2f83c7d6da059c62fc279a02b73f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 3/3] fix: deserialize strings that the format cannot lend

<&str>::deserialize only accepts borrowed data, so deserializing JSON strings
with escapes, or anything from a reader, failed even though String accepts it.
---
 src/integration.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/integration.rs b/src/integration.rs
index 9e1b32f..11487c7 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -80,6 +80,8 @@ mod serde_impl {
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
     #[cfg(all(feature = "no-panic", not(debug_assertions)))]
     use no_panic::no_panic;
+    use core::fmt::{self, Formatter};
+    use serde::de::{Error as DeError, Unexpected, Visitor};
     pub use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 
     impl<const N: usize> Serialize for ArrayString<N>
@@ -93,6 +95,29 @@ mod serde_impl {
         }
     }
 
+    struct StrVisitor<const N: usize>;
+
+    impl<'a, const N: usize> Visitor<'a> for StrVisitor<N>
+    where
+        ArrayString<N>: ValidCapacity,
+    {
+        type Value = ArrayString<N>;
+
+        fn expecting(&self, f: &mut Formatter) -> fmt::Result {
+            f.write_str("a string")
+        }
+
+        fn visit_str<E: DeError>(self, v: &str) -> Result<Self::Value, E> {
+            Ok(ArrayString::from_str_truncate(v))
+        }
+
+        fn visit_bytes<E: DeError>(self, v: &[u8]) -> Result<Self::Value, E> {
+            core::str::from_utf8(v)
+                .map(ArrayString::from_str_truncate)
+                .map_err(|_| E::invalid_value(Unexpected::Bytes(v), &self))
+        }
+    }
+
     impl<'a, const N: usize> Deserialize<'a> for ArrayString<N>
     where
         Self: ValidCapacity,
@@ -100,7 +125,8 @@ mod serde_impl {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn deserialize<D: Deserializer<'a>>(des: D) -> Result<Self, D::Error> {
-            <&str>::deserialize(des).map(Self::from_str_truncate)
+            // Accepts transient strings too (e.g. unescaped or read from a stream), not only borrowed ones
+            des.deserialize_str(StrVisitor)
         }
     }
 
-- 
2.43.0

