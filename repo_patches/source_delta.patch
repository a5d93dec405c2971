From 46fa92010b4b737996c51c954a5bf4ac5130baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:32 +0000
Subject: [PATCH 01/24] fix: keep preceding output when a tuple identity is not
 displayed

The tuple writer removed the last character of the buffer whenever the tuple
had an identity, even if the identity was not written. With id_on_tuples
disabled the character removed belonged to the enclosing value, so
[T(1)] was formatted as (1)].
---
 src/fmt/tuples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/tuples.rs b/src/fmt/tuples.rs
index 52f896a..d4e3b4a 100644
--- a/src/fmt/tuples.rs
+++ b/src/fmt/tuples.rs
@@ -7,7 +7,7 @@ pub(super) fn write(buf: String, node: Node, fmts: &[Fmt], col: usize, seq: SeqI
 
     let prefix = |mut buf| {
         maybe_write_nonprim_ident(&mut buf, fmt.id, id);
-        if id.is_some() {
+        if fmt.id && id.is_some() {
             buf.pop();
         }
         buf.push('(');
-- 
2.43.0


From 8605836efda20f58c9910612bb76fddf90902e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:32 +0000
Subject: [PATCH 02/24] fix: do not allow map keys to be formatted verbosely

Formatter::new caps map keys at concise, but later requests did not check for
keys. A small width limit could raise a sequence key to verbose, which panics
with 'map keys cannot be verbose'.
---
 src/fmt/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8b9d52e..c3d6661 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -300,7 +300,11 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let max_line_repr = max_line_repr(&node.value());
+        let mut max_line_repr = max_line_repr(&node.value());
+        if node.is_key() {
+            // keys can be at most concise
+            max_line_repr = std::cmp::min(max_line_repr, Repr::Concise);
+        }
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
-- 
2.43.0


From ab026718decba718183b8a6555a4fdc5c4ed851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:32 +0000
Subject: [PATCH 03/24] fix: format strings which contain every reserved
 delimiter

A string containing all twenty delimiter characters panicked when formatted.
The parser accepts any character as the delimiter, so fall back to the first
one which the string does not contain.
---
 src/fmt/prims.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9f639ad..9ed2694 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -72,7 +72,11 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-        panic!("exhausted delimiter options for formatting a string");
+        // any character can be a delimiter, so use the first one not found in the string
+        let delim = ('\u{a1}'..=std::char::MAX)
+            .find(|&c| !val.contains(c))
+            .expect("exhausted delimiter options for formatting a string");
+        write!(buf, "str{}{}{}", delim, val, delim)
     }
     .ok();
 }
-- 
2.43.0


From 07bf0c60eeb76f7130e3983e80bb306bd131f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:33 +0000
Subject: [PATCH 04/24] fix: reject floats outside the integer range in as_u128
 and as_i128

A finite float such as 1e300 was converted with a saturating cast, so
as_u128 returned Ok(u128::MAX) instead of IntoIntError.
---
 src/ds/num.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index fe526f0..492cdd7 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -140,7 +140,8 @@ impl Number {
             Uint(x) => Ok(*x),
             Int(x) => (*x).try_into().map_err(|_| IntoIntError),
             Float(x) => {
-                if x.is_finite() && x >= &0.0 {
+                // the upper bound rounds up to 2^128
+                if x.is_finite() && x >= &0.0 && x < &(u128::max_value() as f64) {
                     let r = x.round();
                     let y = (r - x).abs();
                     if y < 1e-10 {
@@ -176,7 +177,11 @@ impl Number {
             Uint(x) => (*x).try_into().map_err(|_| IntoIntError),
             Int(x) => Ok(*x),
             Float(x) => {
-                if x.is_finite() {
+                // the upper bound rounds up to 2^127
+                if x.is_finite()
+                    && x >= &(i128::min_value() as f64)
+                    && x < &(i128::max_value() as f64)
+                {
                     let r = x.round();
                     let y = (r - x).abs();
                     if y < 1e-10 {
-- 
2.43.0


From 34e35e1d23bdf5f02523ccb392f17b451e2d171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:55 +0000
Subject: [PATCH 05/24] fix: order floats consistently against integers

Negative zero and negative nan were ordered below every unsigned integer, and
floats outside the integer range compared as equal to the largest or smallest
integer. The documented number line has all zeroes equal, and nan on top.
---
 src/ds/num.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 492cdd7..37dc3f5 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -386,9 +386,10 @@ fn cmp_uint_to_int(lhs: &u128, rhs: i128) -> Ordering {
 fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() {
+    if lhs < 0.0 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs.is_nan() || lhs >= u128::max_value() as f64 {
+        // the upper bound rounds up to 2^128
         Greater
     } else {
         let (floor, ceil) = float_bounds_uint(lhs);
@@ -407,9 +408,10 @@ fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
 fn cmp_float_to_int(lhs: f64, rhs: i128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() && lhs.is_infinite() {
+    if lhs < i128::min_value() as f64 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs.is_nan() || lhs >= i128::max_value() as f64 {
+        // the upper bound rounds up to 2^127
         Greater
     } else {
         let (floor, ceil) = float_bounds_int(lhs);
-- 
2.43.0


From 33898876fdf227f97039f29fd1b2d95d52c0bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:55 +0000
Subject: [PATCH 06/24] fix: make number equality agree with number ordering

Comparing an integer with a float allowed a tolerance, while comparing the
float with the integer did not, so equality was not symmetric and disagreed
with the ordering.
---
 src/ds/num.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 37dc3f5..ede71a0 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -281,22 +281,7 @@ impl fmt::Display for IntoNumberErr {
 
 impl PartialEq for Number {
     fn eq(&self, other: &Number) -> bool {
-        match (self, other) {
-            // Three cases where lhs and rhs are same type
-            (Uint(lhs), Uint(rhs)) => lhs.eq(rhs),
-            (Int(lhs), Int(rhs)) => lhs.eq(rhs),
-            (Float(lhs), Float(rhs)) => cmp_float_to_float(*lhs, *rhs) == Ordering::Equal,
-
-            // Integers
-            (Uint(lhs), Int(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Uint(lhs), Float(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Uint(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Float(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-
-            // Floats
-            (Float(lhs), Uint(_)) => lhs.eq(&other.as_f64()),
-            (Float(lhs), Int(_)) => lhs.eq(&other.as_f64()),
-        }
+        self.cmp(other) == Ordering::Equal
     }
 }
 
-- 
2.43.0


From 1a42e8d4d17c27d5728098333c78fe0332d1cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:55 +0000
Subject: [PATCH 07/24] fix: hash equal numbers equally

Zeroes and nans compare as equal but hashed to the bits of the float, which
differ for negative zero and for each nan.
---
 src/ds/num.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index ede71a0..38c6c5b 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -258,7 +258,15 @@ impl FromStr for Number {
 
 impl Hash for Number {
     fn hash<H: Hasher>(&self, hasher: &mut H) {
-        self.as_f64().to_bits().hash(hasher)
+        let f = self.as_f64();
+        let f = if f.is_nan() {
+            f64::NAN // all nans are equal
+        } else if f == 0.0 {
+            0.0 // all zeroes are equal
+        } else {
+            f
+        };
+        f.to_bits().hash(hasher)
     }
 }
 
-- 
2.43.0


From 951e4e07a889826c62c605fa12651e905a0c9c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:36 +0000
Subject: [PATCH 08/24] fix: order an empty container as an empty tuple

The two values are documented to be equal, but the derived ordering placed the
tuple before the container.
---
 src/ds/val.rs | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/ds/val.rs b/src/ds/val.rs
index bd0396a..fbd40e7 100644
--- a/src/ds/val.rs
+++ b/src/ds/val.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::{Fields, List, Map};
 use std::{
     borrow::{Borrow, Cow},
+    cmp::Ordering,
     error, fmt,
     ops::{Deref, DerefMut},
 };
@@ -36,7 +37,7 @@ use std::{
 ///
 /// [`BTreeMap`]: std::collections::BTreeMap
 /// [`Kserd`]: crate::Kserd
-#[derive(Eq, PartialOrd, Ord)]
+#[derive(Eq)]
 pub enum Value<'a> {
     /// A unit value `()`.
     Unit,
@@ -110,6 +111,48 @@ impl<'a> PartialEq for Value<'a> {
     }
 }
 
+impl<'a> PartialOrd for Value<'a> {
+    fn partial_cmp(&self, b: &Self) -> Option<Ordering> {
+        Some(self.cmp(b))
+    }
+}
+
+/// Ordering is done by variant then by value. An empty container is ordered as an empty tuple, such
+/// that the ordering is consistent with equality.
+impl<'a> Ord for Value<'a> {
+    fn cmp(&self, b: &Self) -> Ordering {
+        use Value::*;
+
+        fn rank(value: &Value) -> u8 {
+            match value {
+                Unit => 0,
+                Bool(_) => 1,
+                Num(_) => 2,
+                Str(_) => 3,
+                Barr(_) => 4,
+                Tuple(_) => 5,
+                Cntr(_) => 6,
+                Seq(_) => 7,
+                Map(_) => 8,
+            }
+        }
+
+        match (self, b) {
+            (Tuple(a), Cntr(b)) if b.is_empty() => a.len().cmp(&0),
+            (Cntr(a), Tuple(b)) if a.is_empty() => 0.cmp(&b.len()),
+            (Bool(a), Bool(b)) => a.cmp(b),
+            (Num(a), Num(b)) => a.cmp(b),
+            (Str(a), Str(b)) => a.cmp(b),
+            (Barr(a), Barr(b)) => a.cmp(b),
+            (Tuple(a), Tuple(b)) => a.cmp(b),
+            (Cntr(a), Cntr(b)) => a.cmp(b),
+            (Seq(a), Seq(b)) => a.cmp(b),
+            (Map(a), Map(b)) => a.cmp(b),
+            _ => rank(self).cmp(&rank(b)),
+        }
+    }
+}
+
 /// The field name in a container contains invalid characters.
 #[derive(PartialEq, Debug, Eq, Clone)]
 pub struct InvalidFieldName(pub Cow<'static, str>);
-- 
2.43.0


From f628f91387fedc1b2355249ff886ac0d4b60ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:14 +0000
Subject: [PATCH 09/24] fix: read whole numbers beyond the integer range as
 floats

---
 src/ds/num.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 38c6c5b..2f5f239 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -245,12 +245,15 @@ impl FromStr for Number {
         if !valid_int {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
         } else if neg {
+            // whole floats are displayed without a point and can be outside the integer range
             parse::<i128, FMT>(bytes, options)
                 .map(Int)
+                .or_else(|_| ::fast_float::parse(s).map(Float))
                 .map_err(|_| IntoNumberErr)
         } else {
             parse::<u128, FMT>(bytes, options)
                 .map(Uint)
+                .or_else(|_| ::fast_float::parse(s).map(Float))
                 .map_err(|_| IntoNumberErr)
         }
     }
-- 
2.43.0


From e3001d3d14ce3ae3439cc4d944461cab7accd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:18 +0000
Subject: [PATCH 10/24] fix: do not panic when reading numbers with digit
 separators

---
 src/ds/num.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 2f5f239..cfb1cbb 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -241,6 +241,9 @@ impl FromStr for Number {
             .iter()
             .skip(if neg { 1 } else { 0 })
             .all(|b| b.is_ascii_digit() || *b == b'_');
+        // digit separators carry no value, and the integer parser can panic on them
+        let digits = s.replace('_', "");
+        let bytes = digits.as_bytes();
 
         if !valid_int {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
-- 
2.43.0


From b531e8d84f25e75450ff5e9c128df9de4849d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 11/24] fix: indent map entries written as rows of a nested
 container

Entries of a map written with [[name]] headings started at the first
column whatever the depth of their container. Reading the text back put
them in the outermost container.
---
 src/fmt/maps.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index ae5fbf3..5bea0bd 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -93,11 +93,13 @@ pub(super) fn write(
 
             for (k, v) in map {
                 // write field name
+                write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
                 buf.push_str("]]\n");
 
                 // if verbose write on new line, otherwise it is just concise like above
+                write_indent(&mut buf, col);
                 match fmts.get(v.index()).unwrap().line {
                     Repr::Verbose => {
                         // write key
-- 
2.43.0


From f8a09a896c59c34fef526b577036badf9020cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 12/24] fix: do not delimit strings with characters that read
 as something else

str=a= reads as a field assignment, str(a( as a tuple named str and
str_a_ as a name. Strings written this way could not be read back.
---
 src/fmt/prims.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9ed2694..ecdf278 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -39,8 +39,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str#{}#", val)
     } else if !used.contains(Used::BACKTICK) {
         write!(buf, "str`{}`", val)
-    } else if !used.contains(Used::EQ) {
-        write!(buf, "str={}=", val)
     } else if !used.contains(Used::PIPE) {
         write!(buf, "str|{}|", val)
     } else if !used.contains(Used::STAR) {
@@ -55,8 +53,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str~{}~", val)
     } else if !used.contains(Used::AMP) {
         write!(buf, "str&{}&", val)
-    } else if !used.contains(Used::UNDERSCORE) {
-        write!(buf, "str_{}_", val)
     } else if !used.contains(Used::BACKSLASH) {
         write!(buf, "str\\{}\\", val)
     } else if !used.contains(Used::SLASH) {
@@ -67,8 +63,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str<{}<", val)
     } else if !used.contains(Used::R_ANGLE) {
         write!(buf, "str>{}>", val)
-    } else if !used.contains(Used::L_PAREN) {
-        write!(buf, "str({}(", val)
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-- 
2.43.0


From 648a3a81a094b57b1256aa9e715ba2c3dbe78e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 13/24] fix: read map entries whose key spans several lines

The formatter writes the key of a [[name]] map entry on several lines
when it does not fit on one, but the reader only took single line keys.
---
 src/parse/cntr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index e1bcce3..d3d79f4 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -227,11 +227,11 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             let (i, _) = ignore_inline_whitespace(line_ending)(i)?;
 
             // now work out if it is a map or just sequence.
-            // a map as the usual inline kserd, followed by the colon.
+            // a map as the usual inline or concise kserd, followed by the colon.
 
-            // get the key (kserd-inline:)
+            // get the key (kserd-concise:)
             let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_inline)),
+                ignore_inline_whitespace(uncut(kserd_concise)),
                 ignore_inline_whitespace(char(':')),
             ))(i)?;
 
-- 
2.43.0


From 283df4315cc90cbb38391fa0e867b332164dbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 14/24] fix: read a sequence that looks like a field heading

[true] and [[1]] were only ever read as a heading of a nested container.
When the text does not read that way it is now read as a plain value.
---
 src/parse/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 6858271..5f6b129 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -109,7 +109,11 @@ fn kserd_root<'a, E: CxErr<'a>>(i: &'a str) -> IResult<&'a str, Kserd<'a>, E> {
             Err(Err::Error(error::make_error(i, ErrorKind::Eof)))
         })(i)
     } else {
-        all_consuming(terminated(kserd_nested(0), multiline_whitespace))(i)
+        all_consuming(terminated(kserd_nested(0), multiline_whitespace))(i).or_else(|e| {
+            // a sequence can look like a field heading, so see if it is just a value
+            let value = ignore_inline_whitespace(kserd_concise::<E>);
+            all_consuming(terminated(value, multiline_whitespace))(i).map_err(|_| e)
+        })
     }
 }
 
-- 
2.43.0


From a19b65984a07cad3c94f11b80d9c4b4b3b9f2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 15/24] fix: an identity and the value it names are on the same
 line

inf followed by a line starting with a bracket was taken for a value
named inf, which then failed to read as the name has to be on the same
line. Lists with infinity or NaN before a tuple could not be read.
---
 src/parse/heuristics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index e69c49e..657593c 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -38,7 +38,7 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         }
     };
 
-    let (i, _) = multiline_whitespace(i)?;
+    let (i, _) = inline_whitespace(i)?;
     let next = i.chars().next().unwrap_or(' ');
 
     let mut r = if next == '[' {
-- 
2.43.0


From e85dc2f446462346764e92c486c5d13e8586aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 16/24] fix: recognise a field heading with an identity

A container starting with [name:id] was not seen as a container, so the
formatter's own output could not be read.
---
 src/parse/heuristics.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 657593c..0f11d50 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -73,14 +73,20 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<
     // generally a Verbose format can be recognised by:
     // - An identity (:id)
     // - A direct mapping (var_name = xxx)
-    // - A nested mapping ([var_name])
+    // - A nested mapping ([var_name] or [var_name:id])
     // - A sequence or map entry ([[var_name]])
     let encased = |s, e| {
         preceded::<_, _, _, (), _, _>(
             tag(s),
             terminated(
                 ignore_inline_whitespace(valid_name),
-                ignore_inline_whitespace(tag(e)),
+                preceded(
+                    opt(preceded(
+                        ignore_inline_whitespace(char(':')),
+                        ignore_inline_whitespace(valid_name),
+                    )),
+                    ignore_inline_whitespace(tag(e)),
+                ),
             ),
         )(i)
         .is_ok()
-- 
2.43.0


From 832eaebdc6a76569a6833b216c7190068318d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:16 +0000
Subject: [PATCH 17/24] fix: do not mistake a string with an = in it for a
 field

str#a=b# at the start of the text or of a tuple was taken for a field
assignment.
---
 src/parse/heuristics.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 0f11d50..7bb9219 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -113,8 +113,16 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
+    // a delimited string is a value, even if it has an `=` in it
+    let delim = i.strip_prefix("str").and_then(|x| x.chars().next());
+    if delim.map_or(false, |c| {
+        !c.is_ascii_alphanumeric() && !"-_= \t".contains(c)
+    }) {
+        return false;
+    }
+
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}='\"\r\n";
+    let not = "<>(){}[],='\"\r\n";
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
     terminated(maybe_names, char('='))(i).is_ok()
-- 
2.43.0


From b8aac77b175a6e20512563702e185d05439f208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:32 +0000
Subject: [PATCH 18/24] fix: report integers beyond 64 bits as such in decoding
 errors

A mismatch on such an integer was reported as if the value were 0.
---
 src/encode/decoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 9d8da14..a309c14 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -352,8 +352,12 @@ fn unexp_err<'a, 'v>(val: &'a Value<'v>) -> Unexpected<'a> {
         Value::Unit => Unexpected::Unit,
         Value::Bool(v) => Unexpected::Bool(*v),
         Value::Num(n) => match n {
-            Number::Uint(n) => Unexpected::Unsigned((*n).try_into().unwrap_or_default()),
-            Number::Int(n) => Unexpected::Signed((*n).try_into().unwrap_or_default()),
+            Number::Uint(n) => (*n)
+                .try_into()
+                .map_or(Unexpected::Other("128 bit integer"), Unexpected::Unsigned),
+            Number::Int(n) => (*n)
+                .try_into()
+                .map_or(Unexpected::Other("128 bit integer"), Unexpected::Signed),
             Number::Float(n) => Unexpected::Float(*n),
         },
         Value::Str(v) => Unexpected::Str(v.as_str()),
-- 
2.43.0


From d191aae3ef8780eeeb07b492d4a5fa2bcc01f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:32 +0000
Subject: [PATCH 19/24] fix: name the expected float type in decoding errors

The text was taken from a macro variable outside of a macro, so the error
said "expected $t".
---
 src/encode/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index a309c14..ea4410c 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -204,13 +204,13 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
         match self.0.val {
             Value::Num(n) => visitor.visit_f32(n.as_f64() as f32),
-            x => Err(de::Error::invalid_type(unexp_err(&x), &stringify!($t))),
+            x => Err(de::Error::invalid_type(unexp_err(&x), &"f32")),
         }
     }
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
         match self.0.val {
             Value::Num(n) => visitor.visit_f64(n.as_f64()),
-            x => Err(de::Error::invalid_type(unexp_err(&x), &stringify!($t))),
+            x => Err(de::Error::invalid_type(unexp_err(&x), &"f64")),
         }
     }
 
-- 
2.43.0


From 5af8f1ce7fcc7ce0a52d5d8216ded3b1aae53bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:02 +0000
Subject: [PATCH 20/24] fix: decode structures named Some or None

Decoding a newtype or tuple structure took the identities Some and None
for those of an option, so such structures could be encoded but not
decoded.
---
 src/encode/decoder.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index ea4410c..3281cec 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -183,8 +183,8 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
 
     forward_to_deserialize_any! {
         bool str string
-        bytes byte_buf option unit newtype_struct seq tuple
-        tuple_struct map struct identifier ignored_any
+        bytes byte_buf option unit seq tuple
+        map struct identifier ignored_any
     }
 
     de_integer! { unsigned =>
@@ -241,6 +241,36 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
         }
     }
 
+    // a structure can be named `Some` or `None`, here the identity does not stand for an option
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        visitor: V,
+    ) -> Res<V::Value> {
+        let Kserd { id, val } = self.0;
+
+        match (id, val) {
+            (Some(_), Value::Tuple(mut seq)) if seq.len() == 1 => {
+                visitor.visit_newtype_struct(Decoder(seq.pop().expect("only one item")))
+            }
+            (id, val) => Decoder(Kserd { id, val }).deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        _: usize,
+        visitor: V,
+    ) -> Res<V::Value> {
+        let Kserd { id, val } = self.0;
+
+        match val {
+            Value::Tuple(seq) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+            val => Decoder(Kserd { id, val }).deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_enum<V: Visitor<'de>>(
         self,
         _name: &'static str,
-- 
2.43.0


From c2c84ea5d6fab70bd7b357eb2f61a7a5767081c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:43 +0000
Subject: [PATCH 21/24] fix: count the brackets when measuring a named unit

A named unit is written as `Name()`, but only the name was counted.
A tuple of named units could be put on a line longer than the limit.
---
 src/fmt/solver.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index eb2f580..ed03a63 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -62,11 +62,7 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
 
     match &node.val {
         Value::Unit => {
-            if ident > 0 {
-                ident
-            } else {
-                2 // for ()
-            }
+            ident + 2 // for ()
         }
         Value::Bool(v) => {
             prim_ident_width
-- 
2.43.0


From b6b1742a72502b1719c55a86f91876dc40c081bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:43 +0000
Subject: [PATCH 22/24] fix: count the str prefix when measuring a string with
 quotes

A string containing a double quote is written with a `str` prefix.
The prefix was not counted, so the line could exceed the width limit.
---
 src/fmt/solver.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index ed03a63..64529ff 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -73,7 +73,15 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
                 }
         }
         Value::Num(v) => prim_ident_width + v.to_string().chars().count(),
-        Value::Str(v) => 2 + prim_ident_width + v.escape_default().count(), // plus two for quotations
+        Value::Str(v) => {
+            2 + prim_ident_width
+                + v.escape_default().count() // plus two for quotations
+                + if v.contains('"') {
+                    3 // written as str'..'
+                } else {
+                    0
+                }
+        }
         Value::Barr(bytes) => {
             3 + prim_ident_width
                 + bytes.len() * 2
-- 
2.43.0


From bce2be7dfb04d1d575b015a605ed6d1afc939840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:43 +0000
Subject: [PATCH 23/24] fix: count all delimiters when measuring a byte array

A byte array is written as `b91'..'`, which is five characters plus data.
Only three were counted, so lines of short arrays could exceed the limit.
---
 src/fmt/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index 64529ff..c5ac24c 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -83,7 +83,7 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
                 }
         }
         Value::Barr(bytes) => {
-            3 + prim_ident_width
+            5 + prim_ident_width // b91''
                 + bytes.len() * 2
                 + bytes.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count()
         }
-- 
2.43.0


From 9b621cbcba9de0474df11282eda907adeba15e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:34 +0000
Subject: [PATCH 24/24] fix: count the inner spaces when measuring a map

Entries of a map are written with a space inside each brace.
The two spaces were not counted, so the line could exceed the width limit.
---
 src/fmt/solver.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index c5ac24c..13bc94f 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -116,6 +116,7 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
         }
         Value::Map(v) => {
             2 // brackets
+			+ if v.is_empty() { 0 } else { 2 } // spaces inside the brackets
 			+ v.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count() // separator
 			+ v.len() * (KEYS_ASSIGNER.chars().count() + 1) // assign, plus space after			
 			+ if ident > 0 &&  config.id_on_maps {
-- 
2.43.0

