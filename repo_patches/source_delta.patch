From 94fbc5a484cbba37dc7aa2cef39562821ea7eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH] fix: report an exact size_hint for the category set iterator

`Iter` implements `ExactSizeIterator` but kept the default `(0, None)` size hint,
so adapters relying on it (`iter().peekable().len()`, `take(n).len()`) panicked or were wrong.
---
 crates/unicode-intervals/src/categories.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/unicode-intervals/src/categories.rs b/crates/unicode-intervals/src/categories.rs
index feac6d0..81e2c7d 100644
--- a/crates/unicode-intervals/src/categories.rs
+++ b/crates/unicode-intervals/src/categories.rs
@@ -498,6 +498,12 @@ impl Iterator for Iter {
         self.data.unset(index);
         Some(category)
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.data.len();
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for Iter {
-- 
2.43.0

