From 243ce0395f7c1230e4a4a5f7b74fbb5424c30f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 01/14] fix: use the unraw identifier as the variant name

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2d47b5e..f0f58ba 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -617,7 +617,7 @@ impl DisplayStyle {
             }
         }
 
-        let s = ident.to_string();
+        let s = ident.unraw().to_string();
         let (line_head, word_head, normal, sep) = match self {
             DisplayStyle::None => {
                 return s;
-- 
2.43.0


From bebaf1ca6b4ccf47f315ab23e27c004f6e07e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 02/14] fix: pass the format parameters on to the value of an
 opt field

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index f0f58ba..64bbc90 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -933,7 +933,7 @@ impl VarBase<'_> {
                     #crate_path::helpers::OptionFormatHelper::<#inner_ty, _> {
                         value: &#in_expr,
                         f: |#ident : &#inner_ty, #formatter_ident : &mut ::core::fmt::Formatter| {
-                             ::core::write!(#formatter_ident, "{}", #out_expr)
+                             ::core::fmt::Display::fmt(&#out_expr, #formatter_ident)
                         },
                         none_value: "",
                     }
-- 
2.43.0


From ce9e4b7a5779021ab9d9307c243d37b923c6d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 03/14] fix: FromStrRegex patterns of the number types cover
 every string they parse

---
 parse-display/src/from_str_regex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-display/src/from_str_regex.rs b/parse-display/src/from_str_regex.rs
index c7a3c12..c87246f 100644
--- a/parse-display/src/from_str_regex.rs
+++ b/parse-display/src/from_str_regex.rs
@@ -47,7 +47,7 @@ impl FromStrRegex for bool {
 }
 
 fn regex_uint() -> String {
-    r"[0-9]+".into()
+    r"\+?[0-9]+".into()
 }
 impl FromStrRegex for u8 {
     fn from_str_regex() -> String {
@@ -116,7 +116,7 @@ impl FromStrRegex for NonZero<usize> {
 }
 
 fn regex_sint() -> String {
-    r"-?[0-9]+".into()
+    r"[+-]?[0-9]+".into()
 }
 
 impl FromStrRegex for i8 {
@@ -185,7 +185,7 @@ impl FromStrRegex for NonZero<isize> {
 }
 
 fn regex_f() -> String {
-    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?inf|nan)".into()
+    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?(infinity|inf|nan))".into()
 }
 impl FromStrRegex for f32 {
     fn from_str_regex() -> String {
-- 
2.43.0


From c083bf98e10d1e0188a74bff18851da09b372f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 04/14] fix: name a nested field by its dotted path in the
 parse error

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7086605..9038502 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -569,7 +569,7 @@ impl<'a> FieldEntry<'a> {
             }
         }
         for (keys, idx) in &self.deep_captures {
-            let field_name = key.to_string() + &join(keys, ".");
+            let field_name = format!("{key}.{}", join(keys, "."));
             let expr = build_parse_capture_expr(
                 &field_name,
                 capture_index(*idx, names),
-- 
2.43.0


From 8150cfd6a938bc813063a184d6686c6cfb0cd6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 05/14] fix: allow raw identifiers as fields of a type with
 `new = ...`

---
 parse-display-derive/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 64bbc90..12d47a7 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1131,10 +1131,9 @@ impl FieldKey {
     }
     fn new_arg_var(&self) -> Ident {
         match self {
-            Self::Named(s) => parse_str(s),
-            Self::Unnamed(idx) => parse_str(&format!("_{idx}")),
+            Self::Named(s) => format_ident!("r#{s}"),
+            Self::Unnamed(idx) => format_ident!("_{idx}"),
         }
-        .unwrap()
     }
 }
 impl std::fmt::Display for FieldKey {
-- 
2.43.0


From 810949a9b6e2a7ae9336f222e9c9088545683be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 06/14] fix: let an inferred float take its fraction digits

---
 parse-display/src/from_str_regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display/src/from_str_regex.rs b/parse-display/src/from_str_regex.rs
index c87246f..aa86a76 100644
--- a/parse-display/src/from_str_regex.rs
+++ b/parse-display/src/from_str_regex.rs
@@ -185,7 +185,7 @@ impl FromStrRegex for NonZero<isize> {
 }
 
 fn regex_f() -> String {
-    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?(infinity|inf|nan))".into()
+    r"(?i:[+-]?([0-9]*\.[0-9]+|[0-9]+\.?)(e[+-]?[0-9]+)?|[+-]?(infinity|inf|nan))".into()
 }
 impl FromStrRegex for f32 {
     fn from_str_regex() -> String {
-- 
2.43.0


From 02891683adbdcc932c4fc34c43ba52b43afff148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 07/14] fix: keep the meaning of `.` in a field regex that goes
 with a display format

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 9038502..94e5721 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -220,7 +220,7 @@ impl<'a> ParserBuilder<'a> {
                     let mut f = format!("(?<{c}>(?s:.*?))");
                     if keys.is_empty() {
                         if let Some(regex) = regex {
-                            f = format!("(?<{c}>(?s:{regex}))");
+                            f = format!("(?<{c}>(?:{regex}))");
                         }
                         if let Some(with_expr) = with {
                             match vb {
-- 
2.43.0


From d4baf5faed6ea47902a7b1135e69cf282c0d7d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 08/14] fix: `{x}` in a field format is a nested field when
 parsing too

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 94e5721..92cfa9d 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -212,7 +212,7 @@ impl<'a> ParserBuilder<'a> {
                             continue;
                         }
                     }
-                    if keys.len() == 1 {
+                    if keys.len() == 1 && !matches!(vb, VarBase::Field { .. }) {
                         self.push_field(vb, &keys[0], format.span)?;
                         continue;
                     }
-- 
2.43.0


From bf626c65da923f014e0288477332a1ddc76b9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 09/14] fix: let `opt` be combined with `with` and
 `regex_infer` in FromStr

---
 parse-display-derive/src/parser_builder.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 92cfa9d..972ebd9 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -14,7 +14,7 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Variant, parse_quote,
+    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
     spanned::Spanned,
 };
 
@@ -226,8 +226,9 @@ impl<'a> ParserBuilder<'a> {
                             match vb {
                                 VarBase::Struct { .. } => {}
                                 VarBase::Variant { .. } => {}
-                                VarBase::Field { field, key, .. } => {
-                                    self.with.push(With::new(c, key, with_expr, &field.ty));
+                                VarBase::Field { key, .. } => {
+                                    let ty = self.field(key, format.span)?.value_ty();
+                                    self.with.push(With::new(c, key, with_expr, ty));
                                 }
                                 VarBase::FieldSome { key, ty } => {
                                     self.with.push(With::new(c, key, with_expr, ty));
@@ -511,6 +512,15 @@ impl<'a> FieldEntry<'a> {
             crate_path,
         })
     }
+    /// The type the captured text is converted to.
+    fn value_ty(&self) -> &'a Type {
+        let ty = &self.source.ty;
+        if self.hattrs.opt.value() {
+            get_option_element(ty).unwrap_or(ty)
+        } else {
+            ty
+        }
+    }
     #[allow(clippy::collapsible_else_if)]
     fn set_capture(&mut self, keys: &[FieldKey], capture_next: &mut usize) -> String {
         let idx = if keys.is_empty() {
@@ -695,7 +705,7 @@ fn str_expr_to_parse_capture_expr(
     crate_path: &Path,
 ) -> TokenStream {
     if let Some(with) = &field.hattrs.with {
-        let ty = &field.source.ty;
+        let ty = field.value_ty();
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-- 
2.43.0


From b0ed94895dc4bbe2aa1d0a723dc42ac01b50435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 10/14] fix: accept a line break as the fill character

---
 parse-display-derive/src/format_syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/format_syntax.rs b/parse-display-derive/src/format_syntax.rs
index 226b7f5..0f80f7b 100644
--- a/parse-display-derive/src/format_syntax.rs
+++ b/parse-display-derive/src/format_syntax.rs
@@ -96,7 +96,7 @@ impl<'a> FormatSpec<'a> {
     pub fn parse(s: &'a str) -> std::result::Result<Self, FormatParseError> {
         let re = regex!(
             "^\
-             ((?<fill>.)?\
+             ((?<fill>(?s:.))?\
              (?<align>[<>^]))??\
              (?<sign>[+-])?\
              (?<is_alternate>#)?\
-- 
2.43.0


From 6b51d8df7df15bc7a6c7e2f906294c8012c938f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 11/14] fix: accept a nested field of a tuple index as a group
 name in a regex

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 972ebd9..4a3b2c7 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -125,7 +125,7 @@ impl<'a> ParserBuilder<'a> {
             s.len() % 2 == 1
         }
 
-        let regex_number = regex!("^[0-9]+$");
+        let regex_number = regex!("^[0-9]+");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
-- 
2.43.0


From e17d99b4b58895e75a192696705325517ba67892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 12/14] fix: keep a comment at the end of a field's regex from
 swallowing the generated group

---
 parse-display-derive/src/parser_builder.rs | 12 +++++++-----
 parse-display-derive/src/regex_utils.rs    |  9 ++++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 4a3b2c7..5072210 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -150,7 +150,7 @@ impl<'a> ParserBuilder<'a> {
         let mut has_capture = false;
         let mut has_capture_empty = false;
         let mut p = "";
-        let mut text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
+        let text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
             let esc = &c[IDX_ESC];
             if is_escaped(esc) {
                 return Ok(c[0].to_owned());
@@ -186,7 +186,8 @@ impl<'a> ParserBuilder<'a> {
                     return self.push_format(format, vb, None, Some(&text));
                 }
                 let name = self.set_capture(vb, &[], s.span())?;
-                text = format!("(?<{name}>{text})");
+                self.parse_format.push_hir(to_capture(&name, to_hir(&text)));
+                return Ok(());
             }
         }
         self.parse_format.push_hir(to_hir(&text));
@@ -217,10 +218,11 @@ impl<'a> ParserBuilder<'a> {
                         continue;
                     }
                     let c = self.set_capture(vb, &keys, format.span)?;
-                    let mut f = format!("(?<{c}>(?s:.*?))");
+                    let name = c.clone();
+                    let mut hir = to_hir("(?s:.*?)");
                     if keys.is_empty() {
                         if let Some(regex) = regex {
-                            f = format!("(?<{c}>(?:{regex}))");
+                            hir = to_hir(regex);
                         }
                         if let Some(with_expr) = with {
                             match vb {
@@ -236,7 +238,7 @@ impl<'a> ParserBuilder<'a> {
                             }
                         }
                     }
-                    self.parse_format.push_hir(to_hir(&f));
+                    self.parse_format.push_hir(to_capture(&name, hir));
                 }
             }
         }
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 35849f1..f4012c9 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,10 +1,17 @@
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
-use regex_syntax::hir::Hir;
+use regex_syntax::hir::{Capture, Hir};
 
 pub fn to_hir(s: &str) -> Hir {
     regex_syntax::Parser::new().parse(s).unwrap()
 }
+pub fn to_capture(name: &str, sub: Hir) -> Hir {
+    Hir::capture(Capture {
+        index: 1,
+        name: Some(name.into()),
+        sub: Box::new(sub),
+    })
+}
 pub fn to_hir_with_expand(s: &str, name: &str, value: &str) -> Hir {
     let mut ast = to_ast(s);
     expand_capture(&mut ast, |group_name| {
-- 
2.43.0


From 661581d852873ec0bca0565281113f60130df608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 13/14] fix: do not take text in a character class or comment
 of a regex for a named group

---
 parse-display-derive/src/parser_builder.rs | 28 ++++++++++++++++------
 parse-display-derive/src/regex_utils.rs    | 15 ++++++++++++
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 5072210..b179c5b 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -129,10 +129,18 @@ impl<'a> ParserBuilder<'a> {
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
-        let text_debug = regex_capture.replace_all(&text, |c: &Captures| {
+        // Positions (in `text_debug`) of the names found by `regex_capture`.
+        let mut name_offsets = Vec::new();
+        let mut text_debug = String::new();
+        let mut last_end = 0;
+        for c in regex_capture.captures_iter(&text) {
+            let m = c.get(0).unwrap();
+            text_debug.push_str(&text[last_end..m.start()]);
+            last_end = m.end();
             let esc = &c[IDX_ESC];
             if is_escaped(esc) {
-                return c[0].to_owned();
+                text_debug.push_str(m.as_str());
+                continue;
             }
             let key = &c[IDX_KEY];
             let key = if key.is_empty() {
@@ -141,18 +149,24 @@ impl<'a> ParserBuilder<'a> {
                 key.replace('.', "_")
             };
             let key = regex_number.replace(&key, "_$0");
-            format!("{esc}(?<{key}>")
-        });
-        if let Err(e) = regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
-            bail!(s.span(), "{e}")
+            text_debug.push_str(&format!("{esc}(?<"));
+            name_offsets.push(text_debug.len());
+            text_debug.push_str(&format!("{key}>"));
         }
+        text_debug.push_str(&text[last_end..]);
+        // What looks like a named group in a character class or in a comment is not one.
+        let group_offsets = match regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
+            Ok(ast) => group_name_offsets(ast),
+            Err(e) => bail!(s.span(), "{e}"),
+        };
+        let mut name_offsets = name_offsets.into_iter();
 
         let mut has_capture = false;
         let mut has_capture_empty = false;
         let mut p = "";
         let text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
             let esc = &c[IDX_ESC];
-            if is_escaped(esc) {
+            if is_escaped(esc) || !group_offsets.contains(&name_offsets.next().unwrap()) {
                 return Ok(c[0].to_owned());
             }
             has_capture = true;
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index f4012c9..770d9e4 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -71,6 +71,21 @@ fn replace_ast(ast: &mut Ast, f: &mut impl FnMut(&mut Ast) -> bool) {
     }
 }
 
+/// The positions of the names of all named groups.
+pub fn group_name_offsets(mut ast: Ast) -> Vec<usize> {
+    let mut offsets = Vec::new();
+    replace_ast(&mut ast, &mut |ast| {
+        use regex_syntax::ast::GroupKind;
+        if let Ast::Group(g) = &ast {
+            if let GroupKind::CaptureName { name, .. } = &g.kind {
+                offsets.push(name.span.start.offset);
+            }
+        }
+        true
+    });
+    offsets
+}
+
 fn expand_capture(ast: &mut Ast, mut f: impl FnMut(&str) -> Option<Ast>) {
     let f = &mut f;
     replace_ast(ast, &mut |ast| {
-- 
2.43.0


From 3144d8da30f9f157b313d27c3f6e8134fa72eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:14 +0000
Subject: [PATCH 14/14] fix: let from_str attributes have priority over display
 attributes written after them

---
 parse-display-derive/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 12d47a7..05ec396 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -418,13 +418,18 @@ impl HelperAttributes {
             dump_from_str: false,
             crate_path: parse_quote!(::parse_display),
         };
+        // `#[from_str]` is applied last, because it has priority over `#[display]`.
         for a in attrs {
             if a.path().is_ident("display") {
                 hattrs.set_display_args(a.parse_args()?)?;
             }
-            if use_from_str && a.path().is_ident("from_str") {
-                hattrs.push_from_str_warning_spans(a)?;
-                hattrs.set_from_str_args(a.parse_args()?);
+        }
+        if use_from_str {
+            for a in attrs {
+                if a.path().is_ident("from_str") {
+                    hattrs.push_from_str_warning_spans(a)?;
+                    hattrs.set_from_str_args(a.parse_args()?);
+                }
             }
         }
         Ok(hattrs)
-- 
2.43.0

