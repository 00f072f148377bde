From 88e308fb2c1eeea564d4989f114bf40850a31c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 1/3] fix: return the visitor's own error when visiting values
 captured by sval or serde

A visit of a primitive captured through either framework swallowed the error
the visitor returned. It then called the visitor's fallback with the same value
and returned the result of that call instead.
---
 src/visit.rs | 108 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 82 insertions(+), 26 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 346550d..8a68caa 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -234,7 +234,41 @@ impl<'v> ValueBag<'v> {
     /// It's useful for simple cases where a full framework like `serde` or `sval`
     /// isn't necessary.
     pub fn visit(&self, visitor: impl Visit<'v>) -> Result<(), Error> {
-        struct Visitor<V>(V);
+        struct Visitor<V> {
+            visitor: V,
+            #[cfg(any(feature = "sval2", feature = "serde1"))]
+            streaming: bool,
+            #[cfg(any(feature = "sval2", feature = "serde1"))]
+            err: Option<Error>,
+        }
+
+        impl<V> Visitor<V> {
+            fn visited(&mut self, r: Result<(), Error>) -> Result<(), Error> {
+                // The visitor's error won't make it through the framework, so keep it here
+                #[cfg(any(feature = "sval2", feature = "serde1"))]
+                if self.streaming {
+                    return r.map_err(|e| {
+                        self.err = Some(e);
+                        Error::msg("the visitor failed")
+                    });
+                }
+
+                r
+            }
+
+            #[cfg(any(feature = "sval2", feature = "serde1"))]
+            fn stream(&mut self, f: impl FnOnce(&mut Self) -> bool) -> Option<Result<(), Error>> {
+                self.streaming = true;
+                let visited = f(self);
+                self.streaming = false;
+
+                if visited {
+                    Some(Ok(()))
+                } else {
+                    self.err.take().map(Err)
+                }
+            }
+        }
 
         impl<'v, V> InternalVisitor<'v> for Visitor<V>
         where
@@ -245,56 +279,66 @@ impl<'v> ValueBag<'v> {
             }
 
             fn debug(&mut self, v: &dyn internal::fmt::Debug) -> Result<(), Error> {
-                self.0.visit_any(ValueBag::from_dyn_debug(v))
+                self.visitor.visit_any(ValueBag::from_dyn_debug(v))
             }
 
             fn display(&mut self, v: &dyn internal::fmt::Display) -> Result<(), Error> {
-                self.0.visit_any(ValueBag::from_dyn_display(v))
+                self.visitor.visit_any(ValueBag::from_dyn_display(v))
             }
 
             fn u64(&mut self, v: u64) -> Result<(), Error> {
-                self.0.visit_u64(v)
+                let r = self.visitor.visit_u64(v);
+                self.visited(r)
             }
 
             fn i64(&mut self, v: i64) -> Result<(), Error> {
-                self.0.visit_i64(v)
+                let r = self.visitor.visit_i64(v);
+                self.visited(r)
             }
 
             fn u128(&mut self, v: &u128) -> Result<(), Error> {
-                self.0.visit_u128(*v)
+                let r = self.visitor.visit_u128(*v);
+                self.visited(r)
             }
 
             fn i128(&mut self, v: &i128) -> Result<(), Error> {
-                self.0.visit_i128(*v)
+                let r = self.visitor.visit_i128(*v);
+                self.visited(r)
             }
 
             fn f64(&mut self, v: f64) -> Result<(), Error> {
-                self.0.visit_f64(v)
+                let r = self.visitor.visit_f64(v);
+                self.visited(r)
             }
 
             fn bool(&mut self, v: bool) -> Result<(), Error> {
-                self.0.visit_bool(v)
+                let r = self.visitor.visit_bool(v);
+                self.visited(r)
             }
 
             fn char(&mut self, v: char) -> Result<(), Error> {
-                self.0.visit_char(v)
+                let r = self.visitor.visit_char(v);
+                self.visited(r)
             }
 
             fn str(&mut self, v: &str) -> Result<(), Error> {
-                self.0.visit_str(v)
+                let r = self.visitor.visit_str(v);
+                self.visited(r)
             }
 
             fn borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
-                self.0.visit_borrowed_str(v)
+                let r = self.visitor.visit_borrowed_str(v);
+                self.visited(r)
             }
 
             fn none(&mut self) -> Result<(), Error> {
-                self.0.visit_empty()
+                let r = self.visitor.visit_empty();
+                self.visited(r)
             }
 
             #[cfg(feature = "error")]
             fn error(&mut self, v: &(dyn internal::error::Error + 'static)) -> Result<(), Error> {
-                self.0.visit_error(v)
+                self.visitor.visit_error(v)
             }
 
             #[cfg(feature = "error")]
@@ -302,15 +346,17 @@ impl<'v> ValueBag<'v> {
                 &mut self,
                 v: &'v (dyn internal::error::Error + 'static),
             ) -> Result<(), Error> {
-                self.0.visit_borrowed_error(v)
+                self.visitor.visit_borrowed_error(v)
             }
 
             #[cfg(feature = "sval2")]
             fn sval2(&mut self, v: &dyn internal::sval::v2::Value) -> Result<(), Error> {
-                if internal::sval::v2::internal_visit(v, self) {
-                    Ok(())
+                if let Some(r) =
+                    self.stream(|visitor| internal::sval::v2::internal_visit(v, visitor))
+                {
+                    r
                 } else {
-                    self.0.visit_any(ValueBag::from_dyn_sval2(v))
+                    self.visitor.visit_any(ValueBag::from_dyn_sval2(v))
                 }
             }
 
@@ -319,25 +365,29 @@ impl<'v> ValueBag<'v> {
                 &mut self,
                 v: &'v dyn internal::sval::v2::Value,
             ) -> Result<(), Error> {
-                if internal::sval::v2::borrowed_internal_visit(v, self) {
-                    Ok(())
+                if let Some(r) =
+                    self.stream(|visitor| internal::sval::v2::borrowed_internal_visit(v, visitor))
+                {
+                    r
                 } else {
-                    self.0.visit_any(ValueBag::from_dyn_sval2(v))
+                    self.visitor.visit_any(ValueBag::from_dyn_sval2(v))
                 }
             }
 
             #[cfg(feature = "serde1")]
             fn serde1(&mut self, v: &dyn internal::serde::v1::Serialize) -> Result<(), Error> {
-                if internal::serde::v1::internal_visit(v, self) {
-                    Ok(())
+                if let Some(r) =
+                    self.stream(|visitor| internal::serde::v1::internal_visit(v, visitor))
+                {
+                    r
                 } else {
-                    self.0.visit_any(ValueBag::from_dyn_serde1(v))
+                    self.visitor.visit_any(ValueBag::from_dyn_serde1(v))
                 }
             }
 
             #[cfg(feature = "seq")]
             fn seq(&mut self, v: &dyn internal::seq::Seq) -> Result<(), Error> {
-                self.0.visit_any(ValueBag::from_dyn_seq(v))
+                self.visitor.visit_any(ValueBag::from_dyn_seq(v))
             }
 
             fn poisoned(&mut self, msg: &'static str) -> Result<(), Error> {
@@ -345,7 +395,13 @@ impl<'v> ValueBag<'v> {
             }
         }
 
-        self.internal_visit(&mut Visitor(visitor))
+        self.internal_visit(&mut Visitor {
+            visitor,
+            #[cfg(any(feature = "sval2", feature = "serde1"))]
+            streaming: false,
+            #[cfg(any(feature = "sval2", feature = "serde1"))]
+            err: None,
+        })
     }
 }
 
-- 
2.43.0


From 8b16f0cc088bf8271e9d42f903a92fb1ebfdd11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 2/3] fix: extract one item per nested sequence from sval
 values

Extracting a sequence from a value captured through sval yielded an item for
each level of nesting inside an element, instead of one item per element.
---
 src/internal/sval/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 5c9a100..60efffc 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -583,7 +583,7 @@ pub(crate) mod seq {
             // Treat nested complex values as null
             // This ensures an upstream visitor sees them, but won't
             // be able to convert them into anything meaningful
-            if self.depth > 1 {
+            if self.depth == 2 {
                 if let Some(ref mut seq) = self.seq {
                     seq.extend_borrowed(ValueBag::from(()).inner);
                 }
-- 
2.43.0


From 252869bc3fc33913ef1fbff7fd2b0908b92a3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:13 +0000
Subject: [PATCH 3/3] fix: poison the owned copy of a deferred value that fails
 to fill

Buffering a deferred value whose fill failed gave an owned copy that was empty,
as if nothing had been there in the first place.
---
 src/internal/owned.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/internal/owned.rs b/src/internal/owned.rs
index dda0638..855fbb4 100644
--- a/src/internal/owned.rs
+++ b/src/internal/owned.rs
@@ -379,7 +379,10 @@ impl<'v> Internal<'v> {
 
         let mut visitor = OwnedVisitor(OwnedInternal::None);
 
-        let _ = self.internal_visit(&mut visitor);
+        // A value that can't be visited isn't the same as one that's empty
+        if self.internal_visit(&mut visitor).is_err() {
+            return OwnedInternal::Poisoned("failed to buffer the value");
+        }
 
         visitor.0
     }
-- 
2.43.0

