From 0d9596f47e1008c82e143c32cea9efd53f74c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:41 +0000
Subject: [PATCH 1/9] hook: guarded access to private parser and geometry types
 (cfg pbrtrs_verif)

---
 src/lib.rs          |  6 +++++
 src/parser.rs       |  3 +++
 src/parser/verif.rs | 55 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 64 insertions(+)
 create mode 100644 src/parser/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index b291746..d1efca5 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,9 @@ mod core;
 pub mod parser;
 
 pub use core::matrix::Matrix4;
+
+/// The private geometry module, for the verification harness.
+#[cfg(pbrtrs_verif)]
+pub mod verif {
+    pub use core::*;
+}
diff --git a/src/parser.rs b/src/parser.rs
index 93c25a1..a9d25ea 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,6 +3,9 @@ use std::fmt;
 use std::num::{ParseFloatError, ParseIntError};
 use std::path::PathBuf;
 
+#[cfg(pbrtrs_verif)]
+pub mod verif;
+
 #[derive(Debug, Eq, PartialEq, Clone, Copy)]
 pub struct Pos {
     r: usize,
diff --git a/src/parser/verif.rs b/src/parser/verif.rs
new file mode 100644
index 0000000..e4401c9
--- /dev/null
+++ b/src/parser/verif.rs
@@ -0,0 +1,55 @@
+//! Read-only access to private parser types for the verification harness.
+//! Compiled only with `--cfg pbrtrs_verif`.
+use super::{BlockStruct, Directive, DirectiveStruct, Param, ParamSet, Pos, TextureStruct};
+use super::{TokenType, Tokenizer, TokenizerError};
+use core::Float;
+
+#[derive(Debug, PartialEq, Clone)]
+pub enum Tok {
+    Identifier(String),
+    Int(isize),
+    Float(Float),
+    Str(String),
+    LBracket,
+    RBracket,
+}
+
+/// Tokens with their (row, column).
+pub fn tokenize(input: &str) -> Result<Vec<((usize, usize), Tok)>, TokenizerError> {
+    Ok(Tokenizer::tokenize(input)?
+        .into_iter()
+        .map(|t| {
+            let at = pos(&t.pos);
+            let tok = match t.ty {
+                TokenType::Identifier(s) => Tok::Identifier(s),
+                TokenType::Int(i) => Tok::Int(i),
+                TokenType::Float(f) => Tok::Float(f),
+                TokenType::Str(s) => Tok::Str(s),
+                TokenType::LBracket => Tok::LBracket,
+                TokenType::RBracket => Tok::RBracket,
+            };
+            (at, tok)
+        })
+        .collect())
+}
+
+pub fn pos(p: &Pos) -> (usize, usize) {
+    (p.r, p.c)
+}
+
+pub fn directive(d: &DirectiveStruct) -> (&str, (usize, usize), &ParamSet) {
+    (&d.ty, pos(&d.pos), &d.param_set)
+}
+
+/// name, type, class, position, parameters
+pub fn texture(t: &TextureStruct) -> (&str, &str, &str, (usize, usize), &ParamSet) {
+    (&t.name, &t.ty, &t.class, pos(&t.pos), &t.param_set)
+}
+
+pub fn block(b: &BlockStruct) -> ((usize, usize), &[Directive]) {
+    (pos(&b.pos), &b.children)
+}
+
+pub fn param<T>(p: &Param<T>) -> (&str, (usize, usize), &[T]) {
+    (&p.name, pos(&p.pos), &p.values)
+}
-- 
2.43.0


From b87147d812ace1c09e955f917f1342e861abd841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:44 +0000
Subject: [PATCH 2/9] fix: numeric literals with large exponents overflow,
 truncate or lose their value

Scaling the mantissa by isize::pow panicked on overflow (1e99), silently
truncated exponents above u32 (1e4294967296 read as 1), and scaling by
Float::powf turned 0.0e99 into NaN and 0.001e40 into infinity.
---
 src/parser.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a9d25ea..3be2b53 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -363,6 +363,7 @@ impl Tokenizer {
 
     fn tokenize_num(&mut self) -> TokenizerResult<Token> {
         let start_pos = self.pos;
+        let start_index = self.index;
         let mut num_chars = vec![];
         match self.peek() {
             Ok(ch @ '-') => {
@@ -405,23 +406,33 @@ impl Tokenizer {
                                 ),
                             })
                         }
-                        TokenType::Int(i) if i >= 0 && !is_float => {
-                            return Ok(Token {
-                                pos: start_pos,
-                                ty: TokenType::Int(
-                                    num_chars.into_iter().collect::<String>().parse::<isize>()?
-                                        * isize::pow(10, i as u32),
-                                ),
-                            })
-                        }
                         TokenType::Int(i) => {
+                            if i >= 0 && !is_float {
+                                let mantissa =
+                                    num_chars.into_iter().collect::<String>().parse::<isize>()?;
+                                let value = if mantissa == 0 {
+                                    Some(0)
+                                } else if i <= u32::max_value() as isize {
+                                    isize::checked_pow(10, i as u32)
+                                        .and_then(|scale| mantissa.checked_mul(scale))
+                                } else {
+                                    None
+                                };
+                                if let Some(value) = value {
+                                    return Ok(Token {
+                                        pos: start_pos,
+                                        ty: TokenType::Int(value),
+                                    });
+                                }
+                            }
+                            // Not an integer that fits: convert the literal as a whole, since
+                            // the scaled power of ten may overflow or underflow on its own
+                            let literal: String =
+                                self.chars[start_index..self.index].iter().collect();
                             return Ok(Token {
                                 pos: start_pos,
-                                ty: TokenType::Float(
-                                    num_chars.into_iter().collect::<String>().parse::<Float>()?
-                                        * Float::powf(10.0, i as Float),
-                                ),
-                            })
+                                ty: TokenType::Float(literal.parse()?),
+                            });
                         }
                         _ => {
                             return Err(TokenizerError::Str(format!(
-- 
2.43.0


From 534731c816dc3feea09cae1442c7a3a8b54e100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 3/9] fix: consume and match the closing identifier of a block

AttributeEnd, TransformEnd and WorldEnd were never consumed, so a nested block
ended every enclosing block as well, and any closing identifier closed any block.
---
 src/parser.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3be2b53..830c671 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1058,15 +1058,15 @@ impl Parser {
             }
             "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_block("AttributeEnd")?,
             })),
             "TransformBegin" => Ok(Directive::Transform(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_block("TransformEnd")?,
             })),
             "WorldBegin" => Ok(Directive::World(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_block("WorldEnd")?,
             })),
             "Include" => Ok(Directive::Include(
                 start_pos,
@@ -1092,6 +1092,24 @@ impl Parser {
         }
     }
 
+    /// Parses the directives of a block up to and including its closing identifier
+    fn parse_block(&mut self, end: &str) -> ParserResult<Vec<Directive>> {
+        let directives = self.parse_directives()?;
+        match self.next()? {
+            Token {
+                ty: TokenType::Identifier(ref s),
+                ..
+            } if s == end =>
+            {
+                Ok(directives)
+            }
+            Token { pos, ty } => Err(ParserError::Str(format!(
+                "{} parse_block(): expected {} but got {:?}",
+                pos, end, ty
+            ))),
+        }
+    }
+
     fn parse_directives(&mut self) -> ParserResult<Vec<Directive>> {
         let mut directives = vec![];
         loop {
-- 
2.43.0


From 73b4053d585a07e14e72cfa77a8c992bf2778639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:46 +0000
Subject: [PATCH 4/9] fix: report malformed parameters instead of dropping them

parse_param_lists() swallowed every error, so a malformed parameter was lost,
sometimes together with tokens it had already consumed.
---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 830c671..d455ffe 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -575,7 +575,13 @@ impl Parser {
     }
 
     fn parse_param_lists(&mut self, param_set: &mut ParamSet) -> ParserResult<()> {
-        while self.parse_param_list(param_set).is_ok() {}
+        while let Ok(Token {
+            ty: TokenType::Str(_),
+            ..
+        }) = self.peek()
+        {
+            self.parse_param_list(param_set)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 50916925b6d33dea641c5fce05d1d25688b827ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:46 +0000
Subject: [PATCH 5/9] fix: reject text after the world block

parse() ignored everything after the world block.
---
 src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d455ffe..bba2021 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1395,7 +1395,16 @@ impl Parser {
 
     pub fn parse(input: &str) -> ParserResult<(Vec<PreDirective>, Directive)> {
         let mut parser = Parser::new(input)?;
-        Ok((parser.parse_predirectives()?, parser.parse_directive()?))
+        let predirectives = parser.parse_predirectives()?;
+        let world = parser.parse_directive()?;
+        match parser.peek() {
+            Err(ParserError::Eof) => Ok((predirectives, world)),
+            Ok(Token { pos, ty }) => Err(ParserError::Str(format!(
+                "{} parse(): unexpected {:?} after the world block",
+                pos, ty
+            ))),
+            Err(err) => Err(err),
+        }
     }
 }
 
-- 
2.43.0


From 4f49ab8d0e3a1ce33f7127257dc81992e383d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:34 +0000
Subject: [PATCH 6/9] fix: dividing a Vector2 by a scalar multiplied by it

---
 src/core/vector.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/vector.rs b/src/core/vector.rs
index 74f601a..d837e9e 100755
--- a/src/core/vector.rs
+++ b/src/core/vector.rs
@@ -32,8 +32,7 @@ impl<T: ElemType> Div<T> for Vector2<T> {
 
     fn div(self, rhs: T) -> Self {
         assert!(rhs != T::from_int(0), "divide by zero");
-        let recip = rhs;
-        Vector2::new(self.x * recip, self.y * recip)
+        Vector2::new(self.x / rhs, self.y / rhs)
     }
 }
 
-- 
2.43.0


From 8236b0a4a6827328382514d302f25d1e7715feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:34 +0000
Subject: [PATCH 7/9] fix: the inverse stored by Transform::scale is not the
 inverse of its matrix

---
 src/core/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/transform.rs b/src/core/transform.rs
index 401c858..367008d 100755
--- a/src/core/transform.rs
+++ b/src/core/transform.rs
@@ -61,7 +61,7 @@ impl Transform {
                 [1. / x, 0., 0., 0.],
                 [0., 1. / y, 0., 0.],
                 [0., 0., 1. / z, 0.],
-                [0., 0., z, 1.],
+                [0., 0., 0., 1.],
             ]),
         )
     }
-- 
2.43.0


From 901deadb6ac4b7ce6b5aeb91e107002041685aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:34 +0000
Subject: [PATCH 8/9] fix: iterating a Bounds2 skips its first point and wraps
 each row to zero

---
 src/core/boundingbox.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index ee1f25f..55f3031 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -186,6 +186,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 
     fn into_iter(self) -> Self::IntoIter {
         Bounds2Iter {
+            x_min: self.p_min.x,
             p_max: self.p_max,
             x: self.p_min.x,
             y: self.p_min.y,
@@ -194,6 +195,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 }
 
 pub struct Bounds2Iter<T: ElemType> {
+    x_min: T,
     p_max: Point2<T>,
     x: T,
     y: T,
@@ -203,16 +205,16 @@ impl<T: ElemType> Iterator for Bounds2Iter<T> {
     type Item = Point2<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.x >= self.p_max.x && self.y >= self.p_max.y {
+        if self.x >= self.p_max.x || self.y >= self.p_max.y {
             None
         } else {
+            let p = Point2::new(self.x, self.y);
+            self.x += T::from_int(1);
             if self.x >= self.p_max.x {
-                self.x = T::from_int(0);
+                self.x = self.x_min;
                 self.y += T::from_int(1);
-            } else {
-                self.x += T::from_int(1);
             }
-            Some(Point2::new(self.x, self.y))
+            Some(p)
         }
     }
 }
-- 
2.43.0


From 5e8638d0f384bf29e963db6bcbff0d07d0eb698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:35 +0000
Subject: [PATCH 9/9] fix: the intersection of disjoint boxes is a box between
 them

---
 src/core/boundingbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index 55f3031..b5b75a4 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -94,18 +94,18 @@ impl<T: ElemType> Bounds3<T> {
     }
 
     pub fn intersect(&self, b: &Bounds3<T>) -> Bounds3<T> {
-        Bounds3::new(
-            Point3::new(
+        Bounds3 {
+            p_min: Point3::new(
                 pmax(&[self.p_min.x, b.p_min.x]),
                 pmax(&[self.p_min.y, b.p_min.y]),
                 pmax(&[self.p_min.z, b.p_min.z]),
             ),
-            Point3::new(
+            p_max: Point3::new(
                 pmin(&[self.p_max.x, b.p_max.x]),
                 pmin(&[self.p_max.y, b.p_max.y]),
                 pmin(&[self.p_max.z, b.p_max.z]),
             ),
-        )
+        }
     }
 
     pub fn overlaps(&self, b: &Bounds3<T>) -> bool {
-- 
2.43.0

