From c2ed40fffc7775f787c6215da9d5e14a7cf7cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 01/14] fix: step over whole whitespace characters when
 tokenising

Whitespace outside ASCII (U+0085, U+00A0, U+3000, ...) takes more than one
byte, so skipping a single byte after a token sliced inside the character
and panicked.
---
 src/parser/iterator.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index acd88f1..6eafb72 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -57,8 +57,8 @@ impl<'a> Iterator for TokenIterator<'a> {
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-            if brk.is_ignore() {
-                self.current += 1;
+            if let Break::Ignore(_, c) = brk {
+                self.current += c.len_utf8();
             }
 
             if brk.is_end() {
@@ -133,11 +133,6 @@ impl Break {
         matches!(self, Break::End(_))
     }
 
-    #[inline]
-    fn is_ignore(self) -> bool {
-        matches!(self, Break::Ignore(_, _))
-    }
-
     #[inline]
     fn is_token(self) -> bool {
         matches!(self, Break::Token(_, _))
-- 
2.43.0


From 34aa8b6af6080f9df7821622069a43b6cce54890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 02/14] fix: keep delimiter tokens that follow more than one
 whitespace character

A delimiter with whitespace left in front of it ("F  + F", "+ - F") became an
empty token, which reads as the end of the statement: the rest of the string
was silently dropped.
---
 src/parser/iterator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index 6eafb72..b101d44 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -33,7 +33,12 @@ impl<'a> Iterator for TokenIterator<'a> {
             .find(|(_, c)| !is_consume(*c))
             .map(|(i, _)| i);
 
-        if let Some(index) = index {
+        if let Some(skipped) = index {
+            // Leave leading whitespace behind, so that the token starts the text.
+            self.current += skipped;
+            let text = &text[skipped..];
+            let index = 0;
+
             let brk = next_break(text, index);
 
             if let Break::Token(i, c) = brk {
-- 
2.43.0


From e3023cab7816f69fcb667db5b8ec72ae079a5cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 03/14] fix: accept a chance of zero, as documented, instead of
 panicking

ProductionBody::try_with_chance accepts 0.0 to 1.0 inclusive, but a chance of
zero ("A -> 0 B") then failed the assertion in Chance::new.
---
 src/productions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productions.rs b/src/productions.rs
index 0b80a52..a7383ed 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -37,7 +37,7 @@ pub struct Chance {
 impl Chance {
     /// Creates a new [`ChanceKind::Set`] chance value.
     pub fn new(chance: f32) -> Self {
-        assert!(chance > 0_f32, "chance should be positive");
+        assert!(chance >= 0_f32, "chance should not be negative");
         assert!(chance <= 1.0_f32, "chance should be less than or equal to 1.0");
 
         Chance {
-- 
2.43.0


From ba813f2b580726a5d45bb42cd7761558580976bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 04/14] fix: allow for rounding when adding up the chances of a
 production

Ten bodies with a chance of 0.1 each add up to 1.0000001 as f32, and the
production could not be used at all.
---
 src/productions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index a7383ed..b2fb75d 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -279,7 +279,10 @@ impl Production {
             return Err(Error::execution("chance should never be negative"));
         }
 
-        if total_chance > 1.0 {
+        // Chances such as ten times 0.1 add up to slightly more than one in floating point.
+        let rounding = f32::EPSILON * self.body.len() as f32;
+
+        if total_chance > 1.0 + rounding {
             return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
         }
 
@@ -287,7 +290,7 @@ impl Production {
         let default_chance = if remaining == 0 {
             0_f32
         } else {
-            (1.0_f32 - total_chance) / (remaining as f32)
+            (1.0_f32 - total_chance).max(0.0) / (remaining as f32)
         };
 
         let mut current = 0_f32;
-- 
2.43.0


From b898eb0b0c658c7f7e0ad77c390aea9863851a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 05/14] fix: positions outside the string do not match, instead
 of panicking

Matching a head that has a context against an empty string, or at an index
past the end, panicked; heads without context already answered no.
---
 src/productions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/productions.rs b/src/productions.rs
index b2fb75d..55897ab 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -136,6 +136,10 @@ impl ProductionHead {
 
         let left = self.pre.as_ref().unwrap();
 
+        if index >= string.len() {
+            return false;
+        }
+
         if index == 0 {
             return left.is_empty();
         }
@@ -155,6 +159,10 @@ impl ProductionHead {
 
         let right = self.post.as_ref().unwrap();
 
+        if index >= string.len() {
+            return false;
+        }
+
         if index == string.len() - 1 {
             return right.is_empty();
         }
-- 
2.43.0


From f12a1f20893c8d2322f00eb2c78e8bb8fb3f2d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 06/14] fix: record a symbol's name before its code becomes
 visible

Another thread could obtain the code of a new symbol before its name was
registered: Symbol::name was None and Symbol::try_from(code) failed.
---
 src/symbols.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/symbols.rs b/src/symbols.rs
index 5d736a3..cb4e35a 100644
--- a/src/symbols.rs
+++ b/src/symbols.rs
@@ -71,12 +71,10 @@ pub fn get_code(name: &str) -> Result<u32, Error> {
     }
 
     let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
-    register.insert(name.clone(), code);
-    drop(register);
 
-    let mut register = get_name_register().write()?;
-    register.insert(code, name);
-    drop(register);
+    // The name is recorded before other threads can see the code.
+    get_name_register().write()?.insert(code, name.clone());
+    register.insert(name, code);
 
     Ok(code)
 }
-- 
2.43.0


From b49f44b26b9ee81d03e0c4a5bb69fdde86b71fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 07/14] fix: an empty path has no bounds

As documented on Bounds; it used to return infinite bounds with a NaN centre
of mass.
---
 src/geometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 7732e6b..a2b48d0 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -380,6 +380,10 @@ impl Bounds for Path {
     /// Returns the bounds for the path.
 
     fn bounds(&self) -> Option<BoundingBox> {
+        if self.is_empty() {
+            return None;
+        }
+
         let mut bounds = BoundingBox::initial_infinite();
 
         let mut center = Point::zero();
-- 
2.43.0


From feb8b40b8490edd6b367e506850b068de04fb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 08/14] fix: report an unmatched ']' as an error instead of
 panicking

---
 src/interpretation/abop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 28ecdf2..d72af3e 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -119,7 +119,8 @@ impl Interpretation for AbopTurtleInterpretation {
             } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
             } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
-                (pos, dir) = pos_stack.pop().expect("Nothing to pop");
+                (pos, dir) = pos_stack.pop()
+                    .ok_or_else(|| Error::execution("']' without a matching '['"))?;
                 if path.len() > 1 {
                     paths.push(path)
                 }
-- 
2.43.0


From ed6b55b751a269c3f7f96628ba80737b5a29bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 09/14] fix: let the turtle interpret strings of systems
 without all of its symbols

Interpretation promises that other systems can be interpreted; a store that
lacked one of the turtle's six symbols made it panic.
---
 src/interpretation/abop.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index d72af3e..3cd9b37 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -82,13 +82,14 @@ impl Interpretation for AbopTurtleInterpretation {
     fn interpret<S: SymbolStore>(&self,
                                  tokens: &S,
                                  string: &ProductionString) -> crate::Result<Self::Item> {
-        // We need token values to interpret the strings.
-        let forward = tokens.get_symbol("Forward").unwrap();
-        let space = tokens.get_symbol("Move").unwrap();
-        let right = tokens.get_symbol("+").unwrap();
-        let left = tokens.get_symbol("-").unwrap();
-        let push = tokens.get_symbol("[").unwrap();
-        let pop = tokens.get_symbol("]").unwrap();
+        // We need token values to interpret the strings. The store may not have them all,
+        // since it need not come from this interpretation.
+        let forward = tokens.get_symbol("Forward");
+        let space = tokens.get_symbol("Move");
+        let right = tokens.get_symbol("+");
+        let left = tokens.get_symbol("-");
+        let push = tokens.get_symbol("[");
+        let pop = tokens.get_symbol("]");
 
         // We will interpret the tokens as instructions to a LOGO turtle. The following
         // variables keep track of the position that we're at and the direction we're facing.
@@ -106,6 +107,7 @@ impl Interpretation for AbopTurtleInterpretation {
 
         // todo indicate what productions / tokens haven't been used
         for token in string {
+            let token = Some(token);
             if token == forward {                   // interpret forward tokens.
                 pos = pos + dir;
                 path.push(pos);
-- 
2.43.0


From 518c7d91f5c7d29a95d628fca5e4df4ff1cb96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 10/14] fix: finite scale for an SVG of a drawing without
 extent

A drawing that is a single point was written with scale(inf -inf).
---
 src/interpretation/svg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 78194cd..51e947c 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -99,6 +99,9 @@ impl<T> Interpretation for SvgPathInterpretation<T>
                 let scale_x = self.width() as f64 / bounds.width();
                 let scale = scale_x.min(scale_y);
 
+                // A drawing without any extent fits at every scale.
+                let scale = if scale.is_finite() { scale } else { 1.0 };
+
                 Point::new(scale, -scale)
             })
             .unwrap_or(Point::new(1.0, -1.0));
-- 
2.43.0


From 17144c89494eb440667c82ba0645c623d35fb024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 11/14] fix: do not panic when there is nothing to draw in an
 SVG

Paths without any point have no bounds, which the scale allows for, but
taking the centre panicked.
---
 src/interpretation/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 51e947c..6d15557 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -90,7 +90,7 @@ impl<T> Interpretation for SvgPathInterpretation<T>
         let paths = self.initial.interpret(tokens, string)?;
         let bounds = paths.bounds();
 
-        let center = bounds.as_ref().unwrap().center();
+        let center = bounds.as_ref().map(|bounds| bounds.center()).unwrap_or_default();
         let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
 
         let scale = bounds.as_ref()
-- 
2.43.0


From fa37ef4215786ec508e75792bbfd5fba62c81673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 12/14] fix: reject a NaN radius for circles

---
 src/interpretation/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 6d15557..5357691 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -333,7 +333,7 @@ pub struct SvgCircle {
 
 impl SvgCircle {
     pub fn build<P: Into<Point>>(point: P, radius: f64) -> crate::Result<SvgCircle> {
-        if radius < 0.0 {
+        if radius.is_nan() || radius < 0.0 {
             return Err(Error::general("radius should be non-negative"))
         }
 
-- 
2.43.0


From ace0994577d047617ab16d1537368a521a7e5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 13/14] fix: lsystem -v no longer panics on a file name that is
 not UTF-8

---
 src/bin/lsystem/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 2798540..775e98b 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -9,7 +9,7 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.to_str().unwrap());
+        print!("Reading {} ", derive.file.display());
     }
 
     let (interpretation, system, axiom) = {
-- 
2.43.0


From 7c01cdf911b08a67662fbf3babe78ca7305b9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 14/14] fix: escape text in the decorations of SVG elements

---
 src/interpretation/svg.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 5357691..288c89a 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -247,6 +247,11 @@ impl Deref for SvgPath {
     }
 }
 
+/// Escapes text so that it can be used as the value of an XML attribute.
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
+}
+
 #[derive(Debug, Clone, Default)]
 pub struct SvgDecorations {
     pub fill: Option<String>,
@@ -257,8 +262,8 @@ pub struct SvgDecorations {
 impl SvgDecorations {
     pub fn to_attr_string(&self) -> String {
         [
-            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", fill)).unwrap_or_default(),
-            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", stroke)).unwrap_or_default(),
+            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", escape(fill))).unwrap_or_default(),
+            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", escape(stroke))).unwrap_or_default(),
             self.stroke_width.as_ref().map(|width| format!("stroke-width=\"{}\"", width)).unwrap_or_default()
         ].join(" ")
 
-- 
2.43.0

