From a7b7dbd696bf5d17bd1e83075e913e880bbeffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/10] fix: do not index past the end of the path before a
 one-character static sibling of a parameter

---
 wayfinder/src/gen/gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 2cc4dc6..fa8a0c7 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -638,7 +638,7 @@ where
         );
 
         if match_len == 1 {
-            writeln!(w, "{}if i <= len {{", indent1)?;
+            writeln!(w, "{}if i < len {{", indent1)?;
         } else {
             writeln!(w, "{}if i + {} <= len {{", indent1, match_len)?;
         }
-- 
2.43.0


From 7e6e3316ba14c6769a37697483764bb4de344992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 02/10] fix: indent every nesting level when stringifying
 routes

---
 wayfinder/src/core/mod.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/wayfinder/src/core/mod.rs b/wayfinder/src/core/mod.rs
index 1bed836..ee80fc0 100644
--- a/wayfinder/src/core/mod.rs
+++ b/wayfinder/src/core/mod.rs
@@ -61,18 +61,8 @@ pub struct Routes {
     pub query_parameters: Vec<Param>,
 }
 
-fn indent(level: usize) -> &'static str {
-    match level {
-        0 => "",
-        1 => "  ",
-        2 => "    ",
-        3 => "      ",
-        4 => "        ",
-        5 => "          ",
-        6 => "            ",
-        7 => "              ",
-        _ => "              --",
-    }
+fn indent(level: usize) -> String {
+    "  ".repeat(level)
 }
 
 impl Routes {
-- 
2.43.0


From 2b231f94a4e504cd1bf2d65258d942d47ccb5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 03/10] fix: generate a separator arm when one static segment
 is a prefix of a sibling

---
 wayfinder/src/gen/gen.rs | 51 +++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index fa8a0c7..a9e57d5 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -503,16 +503,7 @@ where
             Charlike::Separator => {
                 // check for child match
                 // TODO: this seems backwards??
-                match child.data {
-                    Some(ref route) if route.resources.len() != 0 => {
-                        write_methods(w, route, indent)?;
-                    }
-                    _ => {
-                        writeln!(w, "{}if i == len {{", indent1)?;
-                        writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
-                        writeln!(w, "{}}}", indent1)?;
-                    }
-                }
+                write_path_end(w, child, indent)?;
 
                 // check for separator
                 writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
@@ -665,9 +656,16 @@ where
     }
 
     // n.b. if we got here, the next character is ambiguous
-    writeln!(w, "{}if i == len {{", indent1)?;
-    writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
-    writeln!(w, "{}}}", indent1)?;
+    let separator = trie.children.iter().find(|c| c.0 == Charlike::Separator);
+    match separator {
+        // one static segment is a prefix of another, this is where it ends
+        Some((_, child)) => write_path_end(w, child, indent)?,
+        None => {
+            writeln!(w, "{}if i == len {{", indent1)?;
+            writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
+            writeln!(w, "{}}}", indent1)?;
+        }
+    }
 
     writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
 
@@ -689,7 +687,12 @@ where
                 break;
             }
             Charlike::Separator => {
-                writeln!(w, "{}Some('/') => {{}}", indent2)?;
+                writeln!(w, "{}b\"/\" => {{", indent2)?;
+                writeln!(w, "{}    i += 1;", indent2)?;
+
+                codegen_trie(w, &child.1, indent + 2)?;
+
+                writeln!(w, "{}}},", indent2)?;
             }
         }
     }
@@ -701,6 +704,26 @@ where
     Ok(())
 }
 
+// the path may end at this node, in which case dispatch on its methods
+fn write_path_end<W>(
+    w: &mut W,
+    trie: &Trie<Charlike, FlattenedRoute>,
+    indent: usize,
+) -> io::Result<()>
+where
+    W: Write,
+{
+    match trie.data {
+        Some(ref route) if route.resources.len() != 0 => write_methods(w, route, indent),
+        _ => {
+            let indent1 = "    ".repeat(indent);
+            writeln!(w, "{}if i == len {{", indent1)?;
+            writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
+            writeln!(w, "{}}}", indent1)
+        }
+    }
+}
+
 fn write_methods<W>(w: &mut W, route: &FlattenedRoute, indent: usize) -> io::Result<()>
 where
     W: Write,
-- 
2.43.0


From f2be31b890d655cc12b1aa854f8b2de992e744a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 04/10] fix: generate a matcher for several static segments
 beside a parameter

---
 wayfinder/src/gen/gen.rs | 89 ++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 21 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index a9e57d5..0b69947 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -501,20 +501,7 @@ where
         let (ref segment, ref child) = trie.children[0];
         match segment {
             Charlike::Separator => {
-                // check for child match
-                // TODO: this seems backwards??
-                write_path_end(w, child, indent)?;
-
-                // check for separator
-                writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
-                writeln!(w, "{}    b\"/\" => {{", indent1)?;
-                writeln!(w, "{}        i += 1;", indent1)?;
-                writeln!(w, "{}    }},", indent1)?;
-                writeln!(w, "{}    _ => return Ok(Match::NotFound),", indent1)?;
-                writeln!(w, "{}}}", indent1)?;
-
-                // continue with child
-                codegen_trie(w, child, indent)?;
+                write_separator(w, child, indent)?;
             }
             Charlike::Static(ch) => {
                 // find unambiguous match
@@ -655,6 +642,26 @@ where
         return Ok(());
     }
 
+    if let Some((Charlike::Dynamic(ref name), ref child)) = dynamic {
+        // n.b. only a whole static segment takes precedence over the dynamic
+        for (segment, end) in static_segments(trie) {
+            let indent3 = format!("{}    ", indent2);
+            let match_len = segment.len();
+            writeln!(w, "{}if path[i..].starts_with(b\"{}\") {{", indent1, segment)?;
+            writeln!(
+                w,
+                "{}if i + {1} == len || path[i+{1}] == b'/' {{",
+                indent2, match_len
+            )?;
+            writeln!(w, "{}i += {};", indent3, match_len)?;
+            write_separator(w, end, indent + 2)?;
+            writeln!(w, "{}}}", indent2)?;
+            writeln!(w, "{}}}", indent1)?;
+        }
+
+        return write_dynamic(w, child, indent, name);
+    }
+
     // n.b. if we got here, the next character is ambiguous
     let separator = trie.children.iter().find(|c| c.0 == Charlike::Separator);
     match separator {
@@ -679,13 +686,7 @@ where
 
                 writeln!(w, "{}}},", indent2)?;
             }
-            Charlike::Dynamic(ref p) => {
-                write_dynamic(w, &child.1, indent, p)?;
-
-                // No further routes will possibly match.
-                // TODO: is this true still?
-                break;
-            }
+            Charlike::Dynamic(_) => unreachable!(),
             Charlike::Separator => {
                 writeln!(w, "{}b\"/\" => {{", indent2)?;
                 writeln!(w, "{}    i += 1;", indent2)?;
@@ -704,6 +705,52 @@ where
     Ok(())
 }
 
+// a segment has been matched, so either the path ends or a separator follows
+fn write_separator<W>(
+    w: &mut W,
+    child: &Trie<Charlike, FlattenedRoute>,
+    indent: usize,
+) -> io::Result<()>
+where
+    W: Write,
+{
+    let indent1 = "    ".repeat(indent);
+
+    // check for child match
+    // TODO: this seems backwards??
+    write_path_end(w, child, indent)?;
+
+    // check for separator
+    writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
+    writeln!(w, "{}    b\"/\" => {{", indent1)?;
+    writeln!(w, "{}        i += 1;", indent1)?;
+    writeln!(w, "{}    }},", indent1)?;
+    writeln!(w, "{}    _ => return Ok(Match::NotFound),", indent1)?;
+    writeln!(w, "{}}}", indent1)?;
+
+    // continue with child
+    codegen_trie(w, child, indent)
+}
+
+// every static segment starting at this node, with the node following its separator
+fn static_segments(
+    trie: &Trie<Charlike, FlattenedRoute>,
+) -> Vec<(String, &Trie<Charlike, FlattenedRoute>)> {
+    let mut segments = vec![];
+    for (ch, child) in trie.children.iter() {
+        match ch {
+            Charlike::Static(ch) => {
+                for (rest, end) in static_segments(child) {
+                    segments.push((format!("{}{}", ch, rest), end));
+                }
+            }
+            Charlike::Separator => segments.push((String::new(), child)),
+            Charlike::Dynamic(_) => {}
+        }
+    }
+    segments
+}
+
 // the path may end at this node, in which case dispatch on its methods
 fn write_path_end<W>(
     w: &mut W,
-- 
2.43.0


From 91e772a09d7a8d62390d7174d5dd3c89440b8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 05/10] fix: reject sibling parameters instead of dropping all
 but one

---
 wayfinder/src/gen/gen.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 0b69947..4452a52 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -552,6 +552,15 @@ where
 
     // n.b. if we got here, trie.children.len() > 1
 
+    // sibling parameters are ambiguous, only one of them could ever match
+    let dynamics = trie.children.iter().filter(|c| match c.0 {
+        Charlike::Dynamic(_) => true,
+        _ => false,
+    });
+    if dynamics.count() > 1 {
+        return Err(io::ErrorKind::InvalidInput.into());
+    }
+
     let dynamic = trie.children.iter().find(|c| match c.0 {
         Charlike::Dynamic(_) => true,
         _ => false,
-- 
2.43.0


From b4fcef775e12b772eb05b82fbe2c21a6bae4324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 06/10] fix: do not match a parameter against a missing
 trailing segment

---
 wayfinder/src/gen/gen.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 4452a52..78c8d24 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -542,6 +542,7 @@ where
                 codegen_trie(w, child, indent)?;
             }
             Charlike::Dynamic(ref name) => {
+                write_missing_segment(w, trie, indent)?;
                 writeln!(w, "{}let start = i;", indent1)?;
                 write_dynamic(w, &child, indent, name)?;
             }
@@ -652,6 +653,8 @@ where
     }
 
     if let Some((Charlike::Dynamic(ref name), ref child)) = dynamic {
+        write_missing_segment(w, trie, indent)?;
+
         // n.b. only a whole static segment takes precedence over the dynamic
         for (segment, end) in static_segments(trie) {
             let indent3 = format!("{}    ", indent2);
@@ -780,6 +783,21 @@ where
     }
 }
 
+// without resources of its own, a path ending before the parameter is no match
+fn write_missing_segment<W>(
+    w: &mut W,
+    trie: &Trie<Charlike, FlattenedRoute>,
+    indent: usize,
+) -> io::Result<()>
+where
+    W: Write,
+{
+    match trie.data {
+        Some(ref route) if route.resources.len() != 0 => Ok(()),
+        _ => write_path_end(w, trie, indent),
+    }
+}
+
 fn write_methods<W>(w: &mut W, route: &FlattenedRoute, indent: usize) -> io::Result<()>
 where
     W: Write,
-- 
2.43.0


From 7ee5e45dcd7167d86a4d3ce0b6036471bdb89374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 07/10] fix: accept header lines that start with a slash

---
 wayfinder/src/parse/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/parse/mod.rs b/wayfinder/src/parse/mod.rs
index aeef37a..b32cc2a 100644
--- a/wayfinder/src/parse/mod.rs
+++ b/wayfinder/src/parse/mod.rs
@@ -194,7 +194,10 @@ pub fn nested_routes(input: CompleteStr, level: usize) -> IResult<CompleteStr, N
 named!(pub header<CompleteStr, Header>,
     do_parse!(
         text: terminated!(
-            recognize!(pair!(not!(char!('/')), many0!(not_line_ending))),
+            recognize!(pair!(
+                not!(pair!(char!('/'), line_ending)),
+                many0!(not_line_ending)
+            )),
             many1!(line_ending)
         ) >>
         (Header::new(text))
-- 
2.43.0


From 421ba9995c8511918fc7c3bcad5cbe36051d714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 08/10] fix: reject two resources for the same method on one
 path

---
 wayfinder/src/gen/gen.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 78c8d24..bf48a07 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -810,7 +810,12 @@ where
     writeln!(w, "{}if i == len {{", indent1)?;
     writeln!(w, "{}    match method {{", indent1)?;
 
-    for resource in route.resources.iter() {
+    for (n, resource) in route.resources.iter().enumerate() {
+        // only the first resource for a method could ever match
+        if route.resources[..n].iter().any(|r| r.method == resource.method) {
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
+
         let (path, route_nest, close_parens) = {
             let mut path = String::new();
             let mut accum = String::new();
-- 
2.43.0


From 880ec5499baf2f2c459a46770c87fcb7aa5c5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 09/10] fix: do not skip line ends inside a route file line

---
 wayfinder/src/parse/mod.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/wayfinder/src/parse/mod.rs b/wayfinder/src/parse/mod.rs
index b32cc2a..a24e773 100644
--- a/wayfinder/src/parse/mod.rs
+++ b/wayfinder/src/parse/mod.rs
@@ -8,7 +8,7 @@ use nom::types::CompleteStr;
 use nom::{
     alt_complete, apply, char, complete, count, delimited, do_parse, eof, line_ending, many0,
     many1, named, not, not_line_ending, pair, preceded, recognize, return_error, tag, tag_no_case,
-    take_while1, terminated, value, ws, IResult,
+    take_while, take_while1, terminated, value, IResult,
 };
 
 use crate::core::*;
@@ -30,6 +30,19 @@ macro_rules! indented {
     }
 }
 
+// n.b. like `ws!`, but never skips the end of the line
+macro_rules! spaced {
+    (
+        $input:expr, $($content:tt)*
+    ) => {
+        delimited!($input, take_while!(is_space), $($content)*, take_while!(is_space))
+    }
+}
+
+pub fn is_space(ch: char) -> bool {
+    ch == ' ' || ch == '\t'
+}
+
 pub fn is_identifier_char(ch: char) -> bool {
     ch.is_alphanumeric() || ch == '_'
 }
@@ -52,7 +65,7 @@ named!(colon<CompleteStr, CompleteStr>,
 named!(pub param<CompleteStr, Param>,
     do_parse!(
         name: take_while1!(is_identifier_char) >>
-        ws!(colon) >>
+        spaced!(colon) >>
         typ: take_while1!(is_identifier_char) >>
         (Param::new(name, typ))
     )
@@ -65,7 +78,7 @@ indented!(
             param:
                 delimited!(
                     char!('{'),
-                    ws!(param),
+                    spaced!(param),
                     return_error!(err_str!("Expected a \"}\""), char!('}'))
                 )
                 >> (PathSegment::from(param))
@@ -77,7 +90,7 @@ indented!(
     query_parameter<Param>,
     delimited!(
         char!('['),
-        ws!(param),
+        spaced!(param),
         return_error!(err_str!("Expected a \"]\""), char!(']'))
     )
 );
@@ -85,10 +98,10 @@ indented!(
 named!(target<CompleteStr, (bool, Vec<String>, String)>,
     alt_complete!(
         do_parse!(
-            ws!(tag!("->")) >>
+            spaced!(tag!("->")) >>
             modules: many0!(terminated!(
                 take_while1!(is_identifier_char),
-                ws!(tag!("::"))
+                spaced!(tag!("::"))
             )) >>
             action: take_while1!(is_identifier_char) >>
             ((true, modules.iter().map(|m| m.to_string()).collect(), action.to_string()))
@@ -96,7 +109,7 @@ named!(target<CompleteStr, (bool, Vec<String>, String)>,
         do_parse!(
             modules: many0!(terminated!(
                 take_while1!(is_identifier_char),
-                ws!(tag!("::"))
+                spaced!(tag!("::"))
             )) >>
             action: take_while1!(is_identifier_char) >>
             ((false, modules.iter().map(|m| m.to_string()).collect(), action.to_string()))
-- 
2.43.0


From dbb3f990529f36799fdef8bd1c4b5b76c6c891cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:19 +0000
Subject: [PATCH 10/10] fix: report a build whose last bytes do not reach
 standard output

Standard output buffers by line and may keep the end of the generated code
after a short write; it is then written when the process exits, where a
failure goes unnoticed and the build ends with status 0.  Flush it.
---
 wayfinder/src/build/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/build/mod.rs b/wayfinder/src/build/mod.rs
index 55bafb1..7f3f41f 100644
--- a/wayfinder/src/build/mod.rs
+++ b/wayfinder/src/build/mod.rs
@@ -192,7 +192,8 @@ impl Builder {
             }
         };
 
-        match codegen(&mut output, &input) {
+        // anything still buffered has to arrive too for the build to succeed
+        match codegen(&mut output, &input).and_then(|_| output.flush()) {
             Ok(_) => {}
             Err(e) => {
                 fail!("Error generating code: {}", e);
-- 
2.43.0

