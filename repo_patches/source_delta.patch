From a3913d8aba4019dfb046ecaf411f6aa5e64a0169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 01/50] fix: range-check unsigned tokens against signed maxima
 without wrapping

18446744073709551615 was accepted for an i8 (as -1) because the token was
cast to i64 before the comparison.
---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4faaaea..e5afec2 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -412,7 +412,7 @@ impl DeJsonState {
             return Ok(value);
         }
         if let DeJsonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d04df66..36a0100 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -393,7 +393,7 @@ impl DeRonState {
             return Ok(value);
         }
         if let DeRonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
-- 
2.43.0


From 13cdcc5cfcce4790e1c5a7e4a2e04ea228400b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 02/50] fix: return an error for malformed or truncated unknown
 JSON fields

Skipping an unknown field panicked on ':' ',' ']' '}' or end of input, and
looped forever when the input ended inside a bracket.
---
 src/serde_json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index e5afec2..687f508 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -303,6 +303,10 @@ impl DeJsonState {
                         open_brackets -= 1;
                     }
 
+                    if let DeJsonTok::Eof = self.tok {
+                        return Err(self.err_token("] or }"));
+                    }
+
                     self.next_tok(i)?;
 
                     if open_brackets == 0 {
@@ -311,7 +315,7 @@ impl DeJsonState {
                 }
                 Ok(())
             }
-            _ => unimplemented!("{:?}", self.tok),
+            _ => Err(self.err_token("value")),
         }
     }
 
-- 
2.43.0


From ac2d2814016954de90400e80fb29bda9f3ff7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 03/50] fix: accept an explicit '+' in JSON and RON number
 exponents

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 687f508..7ef6609 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -549,7 +549,7 @@ impl DeJsonState {
                     is_float = true;
                     self.numbuf.push(self.cur);
                     self.next(i);
-                    if self.cur == '-' {
+                    if self.cur == '-' || self.cur == '+' {
                         self.numbuf.push(self.cur);
                         self.next(i);
                     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 36a0100..d7f9481 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -537,7 +537,7 @@ impl DeRonState {
                         is_float = true;
                         self.numbuf.push(self.cur);
                         self.next(i);
-                        if self.cur == '-' {
+                        if self.cur == '-' || self.cur == '+' {
                             self.numbuf.push(self.cur);
                             self.next(i);
                         }
-- 
2.43.0


From 603b0aae1166af746c9aed4cfb21e30cdad24717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 04/50] fix: skip JSON comments iteratively

Every comment recursed into next_tok, so a document with many comments
overflowed the stack.
---
 src/serde_json.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 7ef6609..c04534e 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -454,21 +454,24 @@ impl DeJsonState {
     }
 
     pub fn next_tok(&mut self, i: &mut Chars) -> Result<(), DeJsonErr> {
-        while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
-            self.next(i);
-        }
-        if self.cur == '\0' {
-            self.tok = DeJsonTok::Eof;
-            return Ok(());
-        }
-        if self.cur == '/' {
+        loop {
+            while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
+                self.next(i);
+            }
+            if self.cur == '\0' {
+                self.tok = DeJsonTok::Eof;
+                return Ok(());
+            }
+            if self.cur != '/' {
+                break;
+            }
             self.next(i);
             match self.cur {
                 '/' => {
                     while self.cur != '\n' && self.cur != '\0' {
                         self.next(i);
                     }
-                    return self.next_tok(i);
+                    continue;
                 }
                 '*' => {
                     let mut last = self.cur;
@@ -483,7 +486,7 @@ impl DeJsonState {
                         }
                         last = self.cur;
                     }
-                    return self.next_tok(i);
+                    continue;
                 }
                 _ => {
                     return Err(self.err_token("CommentOpen"));
-- 
2.43.0


From 51ab0eb1bb2f6b61d18f4575c6c4b7cc52d2c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 05/50] fix: do not trust binary length prefixes

A huge length overflowed the bounds check of String, and made Vec, HashSet
and HashMap panic or abort while reserving capacity.
---
 src/serde_bin.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 335c217..7750983 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -254,7 +254,7 @@ impl SerBin for String {
 impl DeBin for String {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<String, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        if *o + len > d.len() {
+        if len > d.len() - *o {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
@@ -299,7 +299,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Vec<T>, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             out.push(DeBin::de_bin(o, d)?)
         }
@@ -355,7 +355,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = std::collections::HashSet::with_capacity(len);
+        let mut out = std::collections::HashSet::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             out.insert(DeBin::de_bin(o, d)?);
         }
@@ -602,7 +602,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut h = std::collections::HashMap::with_capacity(len);
+        let mut h = std::collections::HashMap::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             let k = DeBin::de_bin(o, d)?;
             let v = DeBin::de_bin(o, d)?;
-- 
2.43.0


From 9b561bba046a338970ed970a2114bd8ce89b6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 06/50] fix: serialize empty slices and arrays to JSON and RON
 without underflow

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index c04534e..73d9bf5 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1034,7 +1034,7 @@ where
 {
     fn ser_json(&self, d: usize, s: &mut SerJsonState) {
         s.out.push('[');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_json(d + 1, s);
             if index != last {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d7f9481..32cec45 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1017,7 +1017,7 @@ where
 {
     fn ser_ron(&self, d: usize, s: &mut SerRonState) {
         s.out.push('(');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_ron(d + 1, s);
             if index != last {
-- 
2.43.0


From cde582d3bcc8c113a9a74aff1d0947927a37dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 07/50] fix: report out-of-range Duration and SystemTime values
 as errors

Inputs that describe a Duration or SystemTime which cannot be represented
panicked in the binary, JSON and RON deserializers.
---
 src/serde_bin.rs  | 14 ++++++++++++--
 src/serde_json.rs | 10 +++++++---
 src/serde_ron.rs  | 10 +++++++---
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 7750983..de66616 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -683,7 +683,12 @@ impl DeBin for Duration {
                 ),
             });
         }
-        Ok(Duration::new(secs, nanos))
+        Duration::from_secs(secs)
+            .checked_add(Duration::from_nanos(nanos.into()))
+            .ok_or_else(|| DeBinErr {
+                o: *o,
+                msg: DeBinErrReason::Range("Duration overflows".to_owned()),
+            })
     }
 }
 
@@ -699,7 +704,12 @@ impl SerBin for std::time::SystemTime {
 impl DeBin for std::time::SystemTime {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<std::time::SystemTime, DeBinErr> {
         match DeBin::de_bin(o, d)? {
-            Some(duration) => Ok(std::time::SystemTime::UNIX_EPOCH + duration),
+            Some(duration) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(duration)
+                .ok_or_else(|| DeBinErr {
+                    o: *o,
+                    msg: DeBinErrReason::Range("SystemTime overflows".to_owned()),
+                }),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_json.rs b/src/serde_json.rs
index 73d9bf5..e01a624 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1359,12 +1359,14 @@ impl DeJson for Duration {
         s.curly_close(i)?;
 
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
-        let nanos = nanos.unwrap_or(0);
+        let nanos: u32 = nanos.unwrap_or(0);
 
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
-            Ok(Duration::new(secs, nanos))
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos.into()))
+                .ok_or_else(|| s.err_range("Duration overflows"))
         }
     }
 }
@@ -1382,7 +1384,9 @@ impl SerJson for std::time::SystemTime {
 impl DeJson for std::time::SystemTime {
     fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<std::time::SystemTime, DeJsonErr> {
         match DeJson::de_json(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime overflows")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 32cec45..9c6e8aa 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1349,12 +1349,14 @@ impl DeRon for Duration {
         s.curly_close(i)?;
 
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
-        let nanos = nanos.unwrap_or(0);
+        let nanos: u32 = nanos.unwrap_or(0);
 
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
-            Ok(Duration::new(secs, nanos))
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos.into()))
+                .ok_or_else(|| s.err_range("Duration overflows"))
         }
     }
 }
@@ -1372,7 +1374,9 @@ impl SerRon for std::time::SystemTime {
 impl DeRon for std::time::SystemTime {
     fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<std::time::SystemTime, DeRonErr> {
         match DeRon::de_ron(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime overflows")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
-- 
2.43.0


From 6d3695e3450f16a67a18831647a26ef868ae6782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 08/50] fix: count columns in RON and TOML error locations

---
 src/serde_ron.rs | 2 +-
 src/toml.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 9c6e8aa..8ff7625 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -197,7 +197,7 @@ impl DeRonState {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
diff --git a/src/toml.rs b/src/toml.rs
index 73b70a9..565589f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -393,7 +393,7 @@ impl TomlParser {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
-- 
2.43.0


From 3ef5c01c0f5a493b589695ea1e199bb3fa5b6c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 09/50] fix: return the RON char token instead of silently
 swallowing it

---
 src/serde_ron.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 8ff7625..d794f68 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -603,6 +603,7 @@ impl DeRonState {
                     }
                     self.next(i);
                     self.tok = DeRonTok::Char(chr);
+                    return Ok(());
                 }
                 '"' => {
                     self.strbuf.truncate(0);
-- 
2.43.0


From 565fd9aaf1de96a636f6afc57d3b5d8e5e073228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 10/50] fix: serialize JSON struct variants with valid
 separators, renames and skips

A struct variant whose last field was a None Option was written with a
trailing comma, and the rename and skip attributes that the deserializer
honours were ignored by the serializer.
---
 derive/src/serde_json.rs | 52 +++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 24cc119..b76260f 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -326,42 +326,27 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut items = String::new();
                 let mut field_names = vec![];
-                let last = contents.fields.len().saturating_sub(1);
-                for (index, field) in contents.fields.iter().enumerate() {
+                for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
+                        if shared::attrs_skip(&field.attributes) {
+                            field_names.push(format!("{}: _", name));
+                            continue;
+                        }
+                        let json_fieldname =
+                            shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                         let proxied_field = ser_proxy_guard(name, field);
-                        if index == last {
-                            if field.ty.base() == "Option" {
-                                l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                )
-                            } else {
-                                l!(
-                                    items,
-                                    "s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
-                                    name,
-                                    proxied_field
-                                )
-                            }
-                        } else if field.ty.base() == "Option" {
-                            l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                );
+                        let ser_field = format!(
+                            "if first_field_was_serialized {{
+                                s.conl();
+                            }};
+                            first_field_was_serialized = true;
+                            s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
+                            json_fieldname, proxied_field
+                        );
+                        if field.ty.base() == "Option" {
+                            l!(items, "if {}.is_some(){{{}}}", name, ser_field);
                         } else {
-                            l!(
-                                items,
-                                "s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();",
-                                name,
-                                proxied_field
-                            );
+                            l!(items, "{}", ser_field);
                         }
                         field_names.push(name.clone());
                     }
@@ -373,6 +358,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 s.label(\"{}\");
                                 s.out.push(':');
                                 s.st_pre();
+                                let mut first_field_was_serialized = false;
                                 {}
                                 s.st_post(d);
                                 s.out.push('}}');
-- 
2.43.0


From c846e6da5ea99e29e3c6a94cf222d2ab154c4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 11/50] fix: ignore unknown fields when deserializing an empty
 JSON struct

---
 derive/src/serde_json.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index b76260f..597b928 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -137,7 +137,6 @@ pub fn derive_de_json_named(
 ) -> TokenStream {
     let mut local_vars = Vec::new();
     let mut struct_field_names = Vec::new();
-    let mut json_field_names = Vec::new();
     let mut matches = Vec::new();
     let mut unwraps = Vec::new();
 
@@ -215,7 +214,6 @@ pub fn derive_de_json_named(
         }
 
         struct_field_names.push(struct_fieldname);
-        json_field_names.push(json_fieldname);
     }
 
     let mut r = String::new();
@@ -225,25 +223,23 @@ pub fn derive_de_json_named(
     l!(r, "s.curly_open(i) ?;");
     l!(r, "while s.next_str().is_some() {");
 
-    if !json_field_names.is_empty() {
-        l!(r, "match AsRef::<str>::as_ref(&s.strbuf) {");
-        for (json_field_name, local_var) in matches.iter() {
-            l!(
-                r,
-                "\"{}\" => {{s.next_colon(i) ?;{} = Some({}::DeJson::de_json(s, i) ?)}},",
-                json_field_name,
-                local_var,
-                crate_name
-            );
-        }
-        // TODO: maybe introduce "exhaustive" attribute?
-        // l!(
-        //     r,
-        //     "_ => return ::core::result::Result::Err(s.err_exp(&s.strbuf))"
-        // );
-        l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
-        l!(r, "}");
+    l!(r, "match AsRef::<str>::as_ref(&s.strbuf) {");
+    for (json_field_name, local_var) in matches.iter() {
+        l!(
+            r,
+            "\"{}\" => {{s.next_colon(i) ?;{} = Some({}::DeJson::de_json(s, i) ?)}},",
+            json_field_name,
+            local_var,
+            crate_name
+        );
     }
+    // TODO: maybe introduce "exhaustive" attribute?
+    // l!(
+    //     r,
+    //     "_ => return ::core::result::Result::Err(s.err_exp(&s.strbuf))"
+    // );
+    l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
+    l!(r, "}");
     l!(r, "s.eat_comma_curly(i) ?;");
     l!(r, "}");
     l!(r, "s.curly_close(i) ?;");
-- 
2.43.0


From 75d726bbd198d862c9cdbd798a50c072b22275d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 12/50] fix: honour rename and skip when serializing RON struct
 variants

The deserializer honours them, so such values did not round trip.
---
 derive/src/serde_ron.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 29c4050..c582605 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -351,6 +351,12 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let mut inner = String::new();
                 for field in contents.fields.iter() {
                     let name = field.field_name.as_ref().unwrap();
+                    if attrs_skip(&field.attributes) {
+                        names.push(format!("{}: _", name));
+                        continue;
+                    }
+                    let ron_fieldname =
+                        shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                     names.push(name.clone());
                     if field.ty.base() == "Option" {
                         l!(
@@ -361,7 +367,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 s.conl();
                             }}",
                             name.as_str(),
-                            name.as_str(),
+                            ron_fieldname.as_str(),
                             name.as_str()
                         )
                     } else {
@@ -370,7 +376,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             "s.field(d+1, \"{}\");
                             {}.ser_ron(d+1, s);
                             s.conl();",
-                            name,
+                            ron_fieldname,
                             name
                         )
                     }
-- 
2.43.0


From f7be04d925cec9d8b9b5beec048505df5fea841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 13/50] fix: keep container attributes of derived enums

proxy and crate were silently ignored on enums.
---
 derive/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index f7ed622..9ef9fb7 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1523,7 +1523,8 @@ pub fn parse_data(input: TokenStream) -> Data {
             res = Data::Struct(struct_);
         }
         "enum" => {
-            let enum_ = next_enum(&mut source);
+            let mut enum_ = next_enum(&mut source);
+            enum_.attributes = attributes;
             res = Data::Enum(enum_);
         }
         "union" => unimplemented!("Unions are not supported"),
-- 
2.43.0


From 8a3e177eacbddbd5987e41146b9b794d3e1898ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 14/50] fix: escape renamed keys and variant names in JSON
 output

---
 src/serde_json.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index e01a624..46e6da9 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -26,16 +26,12 @@ impl SerJsonState {
 
     pub fn field(&mut self, d: usize, field: &str) {
         self.indent(d);
-        self.out.push('"');
-        self.out.push_str(field);
-        self.out.push('"');
+        field.ser_json(d, self);
         self.out.push(':');
     }
 
     pub fn label(&mut self, label: &str) {
-        self.out.push('"');
-        self.out.push_str(label);
-        self.out.push('"');
+        label.ser_json(0, self);
     }
 
     pub fn conl(&mut self) {
-- 
2.43.0


From a4304a99779b37b6ba7e1faaafeb2a67ff72a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 15/50] fix: report the offset of an unknown binary enum
 discriminant

---
 derive/src/serde_bin.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index f2b1a8e..7681c33 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -369,10 +369,11 @@ pub fn derive_de_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
     format!(
         "impl{} {}::DeBin for {}{} {{
             fn de_bin(o:&mut usize, d:&[u8]) -> ::core::result::Result<Self, {}::DeBinErr> {{
+                let start = *o;
                 let id: u16 = {}::DeBin::de_bin(o,d)?;
                 Ok(match id {{
                     {}
-                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: 0, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
+                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: start, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
                 }})
             }}
         }}",
-- 
2.43.0


From e60d152a2211b16ee9262f6ff434b36ca4386682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 16/50] fix: read the variant name before the lookahead token
 overwrites it

Decoding "A" followed by another string (JSON) or identifier (RON) yielded
the variant named by the following token.
---
 derive/src/serde_json.rs | 15 ++++++++-------
 derive/src/serde_ron.rs  |  5 +++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 597b928..6344056 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -494,11 +494,11 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             "
                     {}::DeJsonTok::CurlyOpen => {{
                         s.curly_open(i)?;
-                        let _ = s.string(i)?;
-                        s.colon(i)?;
-                        let r = ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        let name = s.as_string()?;
+                        s.next_colon(i)?;
+                        let r = ::core::result::Result::Ok(match name.as_str() {{
                             {}
-                            _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
+                            _ => return ::core::result::Result::Err(s.err_enum(&name))
                         }});
                         s.curly_close(i)?;
                         r
@@ -511,10 +511,11 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         r.push_str(&format!(
             "
                     {}::DeJsonTok::Str => {{
-                        let _ = s.string(i)?;
-                        ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        let name = s.as_string()?;
+                        s.next_tok(i)?;
+                        ::core::result::Result::Ok(match name.as_str() {{
                             {}
-                            _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
+                            _ => return ::core::result::Result::Err(s.err_enum(&name))
                         }})
                     }},",
             crate_name, r_units,
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index c582605..591936b 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -508,10 +508,11 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 // we are expecting an identifier
+                let name = s.identbuf.clone();
                 s.ident(i)?;
-                ::core::result::Result::Ok(match s.identbuf.as_ref() {{
+                ::core::result::Result::Ok(match name.as_str() {{
                     {}
-                    _ => return ::core::result::Result::Err(s.err_enum(&s.identbuf))
+                    _ => return ::core::result::Result::Err(s.err_enum(&name))
                 }})
             }}
         }}", generic_w_bounds, crate_name, enum_.name, generic_no_bounds, crate_name, crate_name, body).parse().unwrap()
-- 
2.43.0


From b09f37b517044077bf7c60a419d8ffb1a6fb3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 17/50] fix: find the end of empty and multi-line TOML strings

"" swallowed the following text as string content, and the character after
a closing triple quote was dropped.
---
 src/toml.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 565589f..9168947 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -459,6 +459,9 @@ impl TomlParser {
                         braces += 1;
                         self.next(i);
                     }
+                    if braces == 2 {
+                        return Ok(TomlTok::Str(val));
+                    }
                     let escaped_string = braces == 3;
                     loop {
                         match self.cur {
@@ -485,7 +488,9 @@ impl TomlParser {
                         val.push(self.cur);
                         self.next(i);
                     }
-                    self.next(i);
+                    if !escaped_string {
+                        self.next(i);
+                    }
                     return Ok(TomlTok::Str(val));
                 }
                 ident_chars!() => return self.parse_ident(i, String::new()),
-- 
2.43.0


From e20c6a2c8ec031294d3779cebb7d9c7fada6b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 18/50] fix: report a TOML array of tables that redefines a
 value as an error

'a=1' followed by '[[a]]' hit unreachable!().
---
 src/toml.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 9168947..1c41fc8 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -224,7 +224,8 @@ struct Out {
     active_array_element: Option<(String, usize)>,
 }
 impl Out {
-    fn start_array(&mut self, key: &str) {
+    /// Returns false if `key` is already defined as something else.
+    fn start_array(&mut self, key: &str) -> bool {
         if !self.out.contains_key(key) {
             self.out.insert(key.to_string(), Toml::Array(vec![]));
         }
@@ -235,10 +236,11 @@ impl Out {
                 array.push(BTreeMap::new());
                 n
             }
-            _ => unreachable!(),
+            _ => return false,
         };
 
         self.active_array_element = Some((key.to_string(), n));
+        true
     }
 
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
@@ -316,7 +318,9 @@ impl TomlParser {
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
                         }
-                        out.start_array(&key);
+                        if !out.start_array(&key) {
+                            return Err(self.err_parse("array of tables"));
+                        }
                         local_scope.clear();
                     }
                     _ => return Err(self.err_token(tok)),
-- 
2.43.0


From f8cf7bd617f7dff08072eaeb196ac388061e0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 19/50] fix: let ',' and '#' terminate TOML booleans, inf and
 nan

[true, false] was rejected.
---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 1c41fc8..6d1bb97 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -37,7 +37,7 @@ macro_rules! ident_chars {
 /// Pattern matching a character that can terminate a valid ident.
 macro_rules! ident_term_chars {
     () => {
-        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']'
+        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']' | ',' | '#'
     };
 }
 
-- 
2.43.0


From cee84bee1b360b939c41376b47cc302b3c1cec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 20/50] fix: parse dotted TOML keys iteratively

Every '.' recursed, so a long dotted key overflowed the stack.
---
 src/toml.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 6d1bb97..a377837 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -505,17 +505,11 @@ impl TomlParser {
 
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
-        while matches!(self.cur, ident_chars!()) {
+        while matches!(self.cur, '.' | ident_chars!()) {
             start.push(self.cur);
             self.next(i);
         }
 
-        if self.cur == '.' {
-            start.push(self.cur);
-            self.next(i);
-            return self.parse_ident(i, start); // recursion here could be a problem
-        }
-
         if matches!(self.cur, ident_term_chars!()) {
             return Ok(match start.as_ref() {
                 "true" => TomlTok::Bool(true),
-- 
2.43.0


From f6817b8550ebf7e6963fa3d26f911048094db8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 21/50] fix: reject TOML arrays that are not closed

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index a377837..1b357a0 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -347,7 +347,7 @@ impl TomlParser {
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
-                    if tok == TomlTok::BlockClose || tok == TomlTok::Eof {
+                    if tok == TomlTok::BlockClose {
                         break;
                     }
                     if tok != TomlTok::Comma {
-- 
2.43.0


From f06c45ae164de4248c547295038d7340513d69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 22/50] fix: decode escape sequences in TOML strings

\\n and friends yielded the letter after the backslash.
---
 src/toml.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 1b357a0..8c1ce99 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -485,6 +485,8 @@ impl TomlParser {
                             }
                             '\\' => {
                                 self.next(i);
+                                val.push(self.unescape_char(i)?);
+                                continue;
                             }
                             '\0' => return Err(self.err_parse("string")),
                             _ => {}
@@ -503,6 +505,37 @@ impl TomlParser {
         }
     }
 
+    /// Parse the rest of an escape sequence, starting after the backslash.
+    fn unescape_char(&mut self, i: &mut Chars) -> Result<char, TomlErr> {
+        let digits = match self.cur {
+            'u' => 4,
+            'U' => 8,
+            _ => 0,
+        };
+        let c = match self.cur {
+            '\0' => return Err(self.err_parse("string")),
+            'b' => '\x08',
+            't' => '\t',
+            'n' => '\n',
+            'f' => '\x0c',
+            'r' => '\r',
+            c => c,
+        };
+        self.next(i);
+        if digits == 0 {
+            return Ok(c);
+        }
+        let mut code = 0u32;
+        for _ in 0..digits {
+            let Some(digit) = self.cur.to_digit(16) else {
+                return Err(self.err_parse("string"));
+            };
+            code = code << 4 | digit;
+            self.next(i);
+        }
+        char::from_u32(code).ok_or_else(|| self.err_parse("string"))
+    }
+
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, '.' | ident_chars!()) {
-- 
2.43.0


From d0cfa118453e1d215b869cf2dbdbaa750796189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 23/50] fix: end a TOML array of tables at the next unrelated
 table

A [table] after [[array]] was stored inside the last array element.
---
 src/toml.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 8c1ce99..06ca470 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -243,6 +243,15 @@ impl Out {
         true
     }
 
+    /// A table that is not below the active array element ends it.
+    fn start_table(&mut self, key: &str) {
+        if let Some((table, _)) = &self.active_array_element {
+            if !key.starts_with(&format!("{}.", table)) {
+                self.active_array_element = None;
+            }
+        }
+    }
+
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
         if let Some((table, n)) = self.active_array_element.clone() {
             match self.out.get_mut(&table).unwrap() {
@@ -291,6 +300,7 @@ impl TomlParser {
                 let tok = self.next_tok(i)?;
                 match tok {
                     TomlTok::Str(key) | TomlTok::Ident(key) => {
+                        out.start_table(&key);
                         *local_scope = key;
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
-- 
2.43.0


From b4d1f83f01f08d9c3d91391c85b91d0b2982e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 24/50] fix: derive const generic parameters without trait
 bounds

---
 derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 9ef9fb7..701733a 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -210,6 +210,7 @@ impl Generic {
     pub fn full_with_const(&self, extra_bounds: &[&str], bounds: bool) -> String {
         let bounds = match (bounds, &self) {
             (true, Generic::Lifetime { .. }) => self.get_bounds().join(" + "),
+            (_, Generic::ConstGeneric { .. }) => self.get_bounds().join(" + "),
             (true, _) => {
                 let mut bounds = self.get_bounds().join(" + ");
                 if !extra_bounds.is_empty() {
@@ -221,7 +222,6 @@ impl Generic {
                 }
                 bounds
             }
-            (_, Generic::ConstGeneric { .. }) => self.get_bounds().join(" + "),
             (false, _) => String::new(),
         };
         match bounds.is_empty() {
-- 
2.43.0


From b9d400afc5a4de9ff6c7af37443b68135864b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 25/50] fix: round JSON f32 literals once instead of through
 f64

---
 src/serde_json.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 46e6da9..c12f2bb 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -755,9 +755,13 @@ macro_rules! impl_ser_de_json_float {
         impl DeJson for $ty {
             fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<$ty, DeJsonErr> {
                 //s.is_prefix(p, i) ?;
-                let val = s.as_f64()?;
+                let mut val = s.as_f64()? as $ty;
+                if let DeJsonTok::F64(_) = s.tok {
+                    // round the literal once, not to f64 first and then again
+                    val = s.numbuf.parse().unwrap_or(val);
+                }
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
-- 
2.43.0


From 9bdabab7a2464881a15c0e3b2a3394aa529db7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 26/50] fix: round RON f32 literals once instead of through f64

---
 src/serde_ron.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d794f68..75da638 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -756,9 +756,13 @@ macro_rules! impl_ser_de_ron_float {
         impl DeRon for $ty {
             fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<$ty, DeRonErr> {
                 //s.is_prefix(p, i) ?;
-                let val = s.as_f64()?;
+                let mut val = s.as_f64()? as $ty;
+                if let DeRonTok::F64(_) = s.tok {
+                    // round the literal once, not to f64 first and then again
+                    val = s.numbuf.parse().unwrap_or(val);
+                }
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
-- 
2.43.0


From 1552220c53ed3589ec75b24299f3908f3db38ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 27/50] fix: let JSON struct variants have fields named like
 the serializer's locals

---
 derive/src/serde_json.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 6344056..cae8d86 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -330,7 +330,9 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         }
                         let json_fieldname =
                             shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
-                        let proxied_field = ser_proxy_guard(name, field);
+                        // a field may be called like the parameters of ser_json
+                        let bound_name = format!("_{}", name);
+                        let proxied_field = ser_proxy_guard(&bound_name, field);
                         let ser_field = format!(
                             "if first_field_was_serialized {{
                                 s.conl();
@@ -340,11 +342,11 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             json_fieldname, proxied_field
                         );
                         if field.ty.base() == "Option" {
-                            l!(items, "if {}.is_some(){{{}}}", name, ser_field);
+                            l!(items, "if {}.is_some(){{{}}}", bound_name, ser_field);
                         } else {
                             l!(items, "{}", ser_field);
                         }
-                        field_names.push(name.clone());
+                        field_names.push(format!("{}: {}", name, bound_name));
                     }
                 }
                 l!(
-- 
2.43.0


From 6796c91c82fcd4e2343ad8a9492ddc1a41d22ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 28/50] fix: let RON struct variants have fields named like the
 serializer's locals

---
 derive/src/serde_ron.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 591936b..6e31a35 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -357,7 +357,9 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }
                     let ron_fieldname =
                         shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
-                    names.push(name.clone());
+                    // a field may be called like the parameters of ser_ron
+                    let bound_name = format!("_{}", name);
+                    names.push(format!("{}: {}", name, bound_name));
                     if field.ty.base() == "Option" {
                         l!(
                             inner,
@@ -366,9 +368,9 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 {}.ser_ron(d+1, s);
                                 s.conl();
                             }}",
-                            name.as_str(),
-                            ron_fieldname.as_str(),
-                            name.as_str()
+                            bound_name,
+                            ron_fieldname,
+                            bound_name
                         )
                     } else {
                         l!(
@@ -377,7 +379,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             {}.ser_ron(d+1, s);
                             s.conl();",
                             ron_fieldname,
-                            name
+                            bound_name
                         )
                     }
                 }
-- 
2.43.0


From 5b4443f1c100f90ff1e2a4ee5ee3ff35c49d6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 29/50] fix: let binary struct variants have a field named like
 the serializer's parameter

---
 derive/src/serde_bin.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 7681c33..7bfc1d0 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -265,12 +265,10 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 ..
             } => {
                 l!(r, "Self::{} {{", ident);
+                // bound as _name: a field may be called like the parameter of ser_bin
                 for f in contents.fields.iter() {
-                    l!(
-                        r,
-                        "{}, ",
-                        f.field_name.as_ref().expect("field must be named")
-                    )
+                    let name = f.field_name.as_ref().expect("field must be named");
+                    l!(r, "{}: _{}, ", name, name)
                 }
 
                 l!(r, "} => {");
@@ -278,7 +276,7 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for f in contents.fields.iter() {
                     l!(
                         r,
-                        "{}.ser_bin(s);",
+                        "_{}.ser_bin(s);",
                         f.field_name.as_ref().expect("field must be named")
                     )
                 }
-- 
2.43.0


From 908a5db650b2064bcfd23f19e8d2fa6ee6d7ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 30/50] fix: derive RON for structs whose fields are all
 skipped

---
 derive/src/serde_ron.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 6e31a35..39589cd 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -207,7 +207,7 @@ pub fn derive_de_ron_named(
         )
     }
 
-    let match_names = if !ron_field_names.is_empty() {
+    let match_names = if ron_field_names.iter().any(Option::is_some) {
         let mut inner = String::new();
         for (ron_field_name, (local_var, _)) in ron_field_names.iter().zip(local_vars.iter()) {
             let Some(ron_field_name) = ron_field_name else {
-- 
2.43.0


From 09c002b82c78acd3cc86bc3a9b3fd484fe0fd62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 31/50] fix: convert JSON struct variant fields that have a
 proxy

---
 derive/src/serde_json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index cae8d86..50bff12 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -332,7 +332,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                         // a field may be called like the parameters of ser_json
                         let bound_name = format!("_{}", name);
-                        let proxied_field = ser_proxy_guard(&bound_name, field);
+                        let proxied_field = ser_proxy_guard(&format!("(*{})", bound_name), field);
                         let ser_field = format!(
                             "if first_field_was_serialized {{
                                 s.conl();
-- 
2.43.0


From 0780b92d86cba66f493568c623c0246f87ac3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 32/50] fix: ignore JSON members holding integers of more than
 64 bits

---
 src/serde_json.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index c12f2bb..3b62f53 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -557,28 +557,23 @@ impl DeJsonState {
                         self.next(i);
                     }
                 }
-                if is_float {
-                    if let Ok(num) = self.numbuf.parse() {
-                        self.tok = DeJsonTok::F64(num);
-                        Ok(())
-                    } else {
-                        Err(self.err_parse("number"))
-                    }
-                } else {
+                if !is_float {
                     if is_neg {
                         if let Ok(num) = self.numbuf.parse() {
                             self.tok = DeJsonTok::I64(num);
                             return Ok(());
-                        } else {
-                            return Err(self.err_parse("number"));
                         }
-                    }
-                    if let Ok(num) = self.numbuf.parse() {
+                    } else if let Ok(num) = self.numbuf.parse() {
                         self.tok = DeJsonTok::U64(num);
-                        Ok(())
-                    } else {
-                        Err(self.err_parse("number"))
+                        return Ok(());
                     }
+                    // an integer of more than 64 bits is still a number
+                }
+                if let Ok(num) = self.numbuf.parse() {
+                    self.tok = DeJsonTok::F64(num);
+                    Ok(())
+                } else {
+                    Err(self.err_parse("number"))
                 }
             }
             'a'..='z' | 'A'..='Z' | '_' => {
-- 
2.43.0


From e6486c073ce066630a64f3424e6c6861ba7058d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 33/50] fix: read null as None for optional JSON fields with a
 proxy

---
 derive/src/serde_json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 50bff12..48f4728 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -180,7 +180,7 @@ pub fn derive_de_json_named(
 
         let proxified_t = if let Some(proxy) = proxy {
             if field.ty.base() == "Option" {
-                format!("Some(From::<&{proxy}>::from(&t))")
+                format!("Option::map(t, |t| From::<&{proxy}>::from(&t))")
             } else {
                 format!("From::<&{proxy}>::from(&t)")
             }
-- 
2.43.0


From 3d8a69e5c54ba26ed9645729de1d88d0d4335fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 34/50] fix: read quotes inside TOML multi-line strings

---
 src/toml.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 06ca470..71e5394 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -481,17 +481,20 @@ impl TomlParser {
                         match self.cur {
                             '"' if !escaped_string => break,
                             '"' if escaped_string => {
+                                // up to two quotes may precede the closing ones
                                 let mut tmp = String::new();
                                 let mut braces = 0;
-                                while self.cur == '"' {
+                                while self.cur == '"' && braces < 5 {
                                     tmp.push('"');
                                     braces += 1;
                                     self.next(i);
                                 }
-                                if braces == 3 {
+                                if braces >= 3 {
+                                    val.push_str(&tmp[3..]);
                                     break;
                                 }
                                 val.push_str(&tmp);
+                                continue;
                             }
                             '\\' => {
                                 self.next(i);
-- 
2.43.0


From dd41d9e22dc7a5d3b6aff89f7e261837c4e1f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 35/50] fix: keep the spelling of TOML bare keys that look like
 numbers

---
 src/toml.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 71e5394..a79b8d4 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -55,6 +55,8 @@ pub struct TomlParser {
     cur: char,
     line: usize,
     col: usize,
+    /// The next token is a key: bare keys may look like numbers.
+    key: bool,
 }
 
 /// A TOML parsed token.
@@ -288,7 +290,7 @@ impl TomlParser {
         local_scope: &mut String,
         out: &mut Out,
     ) -> Result<bool, TomlErr> {
-        let tok = self.next_tok(i)?;
+        let tok = self.next_key_tok(i)?;
         match tok {
             TomlTok::Eof => {
                 // at eof.
@@ -297,9 +299,14 @@ impl TomlParser {
             TomlTok::BlockOpen => {
                 // its a scope
                 // we should expect an ident or a string
-                let tok = self.next_tok(i)?;
+                let tok = self.next_key_tok(i)?;
                 match tok {
-                    TomlTok::Str(key) | TomlTok::Ident(key) => {
+                    TomlTok::Str(_)
+                    | TomlTok::Ident(_)
+                    | TomlTok::Bool(_)
+                    | TomlTok::Nan(_)
+                    | TomlTok::Inf(_) => {
+                        let key: String = tok.into();
                         out.start_table(&key);
                         *local_scope = key;
                         let tok = self.next_tok(i)?;
@@ -308,7 +315,7 @@ impl TomlParser {
                         }
                     }
                     TomlTok::BlockOpen => {
-                        let tok = self.next_tok(i)?;
+                        let tok = self.next_key_tok(i)?;
                         let key = match tok {
                             TomlTok::Ident(key) => key,
                             TomlTok::U64(_)
@@ -430,6 +437,13 @@ impl TomlParser {
         }
     }
 
+    fn next_key_tok(&mut self, i: &mut Chars) -> Result<TomlTok, TomlErr> {
+        self.key = true;
+        let tok = self.next_tok(i);
+        self.key = false;
+        tok
+    }
+
     fn next_tok(&mut self, i: &mut Chars) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, '\n' | '\r' | '\t' | ' ') {
             self.next(i);
@@ -464,7 +478,7 @@ impl TomlParser {
                         self.next(i);
                     }
                 }
-                '+' | '-' | '0'..='9' => return self.parse_num(i),
+                '+' | '-' | '0'..='9' if !self.key => return self.parse_num(i),
                 '"' => {
                     let mut val = String::new();
                     self.next(i);
-- 
2.43.0


From 9bc3818a0acb53bc796bc4327cc8ee8f966d9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 36/50] fix: accept quoted names of TOML arrays of tables

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index a79b8d4..250c481 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -317,7 +317,7 @@ impl TomlParser {
                     TomlTok::BlockOpen => {
                         let tok = self.next_key_tok(i)?;
                         let key = match tok {
-                            TomlTok::Ident(key) => key,
+                            TomlTok::Str(key) | TomlTok::Ident(key) => key,
                             TomlTok::U64(_)
                             | TomlTok::I64(_)
                             | TomlTok::F64(_)
-- 
2.43.0


From 172d930091692cc207eeacf14d982c4861f71f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 37/50] fix: trim the first newline and join lines in TOML
 multi-line strings

---
 src/toml.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 250c481..bd6aa95 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -491,6 +491,15 @@ impl TomlParser {
                         return Ok(TomlTok::Str(val));
                     }
                     let escaped_string = braces == 3;
+                    if escaped_string {
+                        // a newline right after the opening quotes is trimmed
+                        if self.cur == '\r' && i.clone().next() == Some('\n') {
+                            self.next(i);
+                        }
+                        if self.cur == '\n' {
+                            self.next(i);
+                        }
+                    }
                     loop {
                         match self.cur {
                             '"' if !escaped_string => break,
@@ -512,6 +521,13 @@ impl TomlParser {
                             }
                             '\\' => {
                                 self.next(i);
+                                if escaped_string && matches!(self.cur, '\n' | '\r' | '\t' | ' ') {
+                                    // a backslash at the end of a line joins it with the next one
+                                    while matches!(self.cur, '\n' | '\r' | '\t' | ' ') {
+                                        self.next(i);
+                                    }
+                                    continue;
+                                }
                                 val.push(self.unescape_char(i)?);
                                 continue;
                             }
-- 
2.43.0


From 1146f838f3ab4f72780037e777b8a8ecb3055bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 38/50] fix: tuple decoding reports the error of the element
 that failed, not of the comma after it

---
 src/serde_json.rs | 4 ++--
 src/serde_ron.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 3b62f53..8dbf05c 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1097,9 +1097,9 @@ fn de_json_comma_block<T>(s: &mut DeJsonState, i: &mut Chars) -> Result<T, DeJso
 where
     T: DeJson,
 {
-    let t = DeJson::de_json(s, i);
+    let t = DeJson::de_json(s, i)?;
     s.eat_comma_block(i)?;
-    t
+    Ok(t)
 }
 
 impl<A, B> SerJson for (A, B)
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 75da638..5b9c63c 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1090,9 +1090,9 @@ fn de_ron_comma_paren<T>(s: &mut DeRonState, i: &mut Chars) -> Result<T, DeRonEr
 where
     T: DeRon,
 {
-    let t = DeRon::de_ron(s, i);
+    let t = DeRon::de_ron(s, i)?;
     s.eat_comma_paren(i)?;
-    t
+    Ok(t)
 }
 
 impl SerRon for () {
-- 
2.43.0


From add658be9d2118e5578377135e31be444ba15e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 39/50] fix: allow a trailing comma in tuple variants

---
 derive/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 701733a..ebee27e 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -650,7 +650,11 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
     ) -> Option<Type> {
         let mut wraps = vec![];
         let mut path = "(".to_owned();
-        while let Some(next_ty) = next_type(source) {
+        // the last element may be followed by a comma
+        while next_eof(source).is_none() {
+            let Some(next_ty) = next_type(source) else {
+                break;
+            };
             wraps.push(next_ty.clone());
             path.push_str(&next_ty.full().to_string());
             if next_exact_punct(source, ",").is_none() {
-- 
2.43.0


From 2b4fdd94022aceed34452f2f330e817f188359d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 40/50] fix: derive enums whose discriminants are expressions

---
 derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index ebee27e..7fd4941 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1228,8 +1228,8 @@ fn next_enum<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         }
 
         if next_exact_punct(&mut body, "=").is_some() {
-            body.next();
-            let _maybe_coma = next_exact_punct(&mut body, ",");
+            // any constant expression, up to the next variant
+            while body.next().is_some_and(|token| token.to_string() != ",") {}
             continue;
         }
 
-- 
2.43.0


From 4c45c2ad7672940cd3a8eff17c74eb2d918654de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 41/50] fix: derive types declared through macro_rules
 fragments

---
 derive/src/parse.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 7fd4941..6d03ee3 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1505,8 +1505,25 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
     ret
 }
 
+/// Fragments captured by `macro_rules!` arrive wrapped in invisible groups.
+fn without_invisible_groups(input: TokenStream) -> TokenStream {
+    input
+        .into_iter()
+        .flat_map(|token| match token {
+            TokenTree::Group(group) => {
+                let content = without_invisible_groups(group.stream());
+                match group.delimiter() {
+                    Delimiter::None => content,
+                    delimiter => TokenTree::from(Group::new(delimiter, content)).into(),
+                }
+            }
+            token => token.into(),
+        })
+        .collect()
+}
+
 pub fn parse_data(input: TokenStream) -> Data {
-    let mut source = input.into_iter().peekable();
+    let mut source = without_invisible_groups(input).into_iter().peekable();
 
     let attributes = next_attributes_list(&mut source);
 
-- 
2.43.0


From f24fc370deaa735cfd6ac015e1322f40eba0a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 42/50] fix: derive types that are pub(crate)

---
 derive/src/parse.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 6d03ee3..405990e 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1527,13 +1527,9 @@ pub fn parse_data(input: TokenStream) -> Data {
 
     let attributes = next_attributes_list(&mut source);
 
-    let pub_or_type = next_ident(&mut source).expect("Not an ident");
+    let _visibility = next_visibility_modifier(&mut source);
 
-    let type_keyword = if pub_or_type == "pub" {
-        next_ident(&mut source).expect("pub(whatever) is not supported yet")
-    } else {
-        pub_or_type
-    };
+    let type_keyword = next_ident(&mut source).expect("Not an ident");
 
     let res;
 
-- 
2.43.0


From 5b757fe1f997c007baa436a740ae6172b5fd7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 43/50] fix: allow a trailing comma in nserde attributes

---
 derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 405990e..63f4fa5 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1059,7 +1059,7 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
     let mut attrs = vec![];
     let mut attr_tokens = vec![];
 
-    loop {
+    while next_eof(&mut args_group).is_none() {
         let attribute_name = next_ident(&mut args_group).expect("Expecting attribute name");
         attr_tokens.push(attribute_name);
 
-- 
2.43.0


From a2675d4f347b139b0bcaffd5ac797f5cb7443494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 44/50] fix: derive fields that are arrays with a computed
 length

---
 derive/src/parse.rs | 48 +++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 63f4fa5..09e6522 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -6,7 +6,6 @@
 
 use alloc::collections::BTreeSet;
 use core::iter::Peekable;
-use core::num::IntErrorKind;
 
 use alloc::borrow::ToOwned;
 use alloc::boxed::Box;
@@ -612,37 +611,26 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
             });
         };
 
-        //need to cover both the const generic and literal case
-        let len = source.peek().unwrap().to_string();
-        match len.parse::<usize>() {
-            Ok(val) => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Value(val as isize)),
-                },
-                wraps: Some(vec![next]),
-                ref_type: None,
-                as_other: None,
-            }),
-            Err(err) if err.kind() == &IntErrorKind::Zero => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Value(0)),
-                },
-                wraps: Some(vec![next]),
-                ref_type: None,
-                as_other: None,
-            }),
-            _ => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Named(Box::new(next_type(source).unwrap()))),
-                },
-                wraps: Some(vec![next]),
+        // a literal, a const generic or any other constant expression
+        let len = source.by_ref().collect::<TokenStream>().to_string();
+        let len = match len.parse::<usize>() {
+            Ok(val) => ConstValType::Value(val as isize),
+            Err(_) => ConstValType::Named(Box::new(Type {
+                ident: Category::Named { path: len },
+                wraps: None,
                 ref_type: None,
                 as_other: None,
-            }),
-        }
+            })),
+        };
+        Some(Type {
+            ident: Category::Array {
+                content_type: Box::new(next.clone()),
+                len: Some(len),
+            },
+            wraps: Some(vec![next]),
+            ref_type: None,
+            as_other: None,
+        })
     }
 
     pub fn next_tuple<T: Iterator<Item = TokenTree> + Clone>(
-- 
2.43.0


From 649abd2ceb1bb0b9ee351e4bc510a55d4009dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 45/50] fix: derive tuple structs with a where clause

---
 derive/src/parse.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 09e6522..1774f31 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1152,7 +1152,7 @@ fn next_fields<T: Iterator<Item = TokenTree> + Clone>(
 
 fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) -> Struct {
     let struct_name = next_ident(source);
-    let generics = get_all_bounds(source);
+    let mut generics = get_all_bounds(source);
     let group = next_group(source);
     // unit struct
     if group.is_none() {
@@ -1181,6 +1181,7 @@ fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>)
     let fields = next_fields(&mut body, named);
 
     if !named {
+        next_where_bounds(source, &mut generics);
         next_exact_punct(source, ";").expect("Expected ; on the end of tuple struct");
     }
 
@@ -1355,7 +1356,7 @@ fn next_generic<T: Iterator<Item = TokenTree> + Clone>(
             })
         }
         TokenTree::Punct(punct) => match punct.as_char() {
-            '>' => None,
+            '>' | ';' => None,
             '\'' => {
                 let ty = next_lifetime(source).expect("must be lifetime after \' mark");
                 let mut bounds = vec![];
@@ -1429,10 +1430,20 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
 
     let _ = next_exact_punct(source, ">").expect("Need closing generic bracket");
 
-    // "where" generics + bounds
+    next_where_bounds(source, &mut ret);
+
+    ret
+}
+
+/// "where" generics + bounds, which follow the fields of a tuple struct
+fn next_where_bounds<T: Iterator<Item = TokenTree> + Clone>(
+    source: &mut Peekable<T>,
+    ret: &mut Vec<Generic>,
+) {
+    let mut already: BTreeSet<_> = ret.iter().map(Generic::full).collect();
     if let Some(content) = source.peek() {
         if content.to_string() != "where" {
-            return ret;
+            return;
         } else {
             source.next();
         }
@@ -1489,8 +1500,6 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
             };
         }
     }
-
-    ret
 }
 
 /// Fragments captured by `macro_rules!` arrive wrapped in invisible groups.
-- 
2.43.0


From 07624067461fb7753aa4af4cea924d2b93363668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 46/50] fix: treat fields of type std::option::Option as
 optional

---
 derive/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 1774f31..bb07470 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -428,7 +428,12 @@ impl Type {
             },
             None => String::default(),
         };
-        base.push_str(&self.ident.path(self, false));
+        let path = self.ident.path(self, false);
+        base.push_str(match path.trim_start_matches("::") {
+            "core::option::Option" | "std::option::Option" => "Option",
+            "alloc::string::String" | "std::string::String" => "String",
+            _ => &path,
+        });
         base
     }
 
-- 
2.43.0


From ab2894805e446e62b138819246f0dde2c90fbe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 47/50] fix: derive tuple structs whose field types start with
 punctuation

---
 derive/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index bb07470..ddd7e52 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1026,10 +1026,7 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
     source: &mut Peekable<T>,
 ) -> Option<Option<Vec<Attribute>>> {
     // all attributes, even doc-comments, starts with "#"
-    let next_attr_punct = next_punct(source);
-    let Some("#") = next_attr_punct.as_deref() else {
-        return None;
-    };
+    next_exact_punct(source, "#")?;
 
     let mut attr_group = next_group(source)
         .expect("Expecting attribute body")
-- 
2.43.0


From e4fa39d6d3403140f5c743284ed640173fd5ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 48/50] fix: allow attributes and doc comments inside tuple
 variants

---
 derive/src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index ddd7e52..fd2f290 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -645,6 +645,10 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         let mut path = "(".to_owned();
         // the last element may be followed by a comma
         while next_eof(source).is_none() {
+            // attributes and doc comments of a variant's field
+            while next_exact_punct(source, "#").is_some() {
+                let _ = next_group(source);
+            }
             let Some(next_ty) = next_type(source) else {
                 break;
             };
-- 
2.43.0


From 76556244a7784a6eb7c4d7cba8ed7162e7696bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 49/50] fix: derive tuple structs with public fields of tuple
 type

---
 derive/src/parse.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index fd2f290..a7b659b 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -467,6 +467,16 @@ impl Type {
     }
 }
 
+// "(crate)" of "pub(crate)", as opposed to the tuple type in "struct S(pub (u8, u8));"
+fn is_visibility_restriction(stream: TokenStream) -> bool {
+    let mut tokens = stream.into_iter();
+    match tokens.next().map(|token| token.to_string()).as_deref() {
+        Some("in") => true,
+        Some("crate" | "self" | "super") => tokens.next().is_none(),
+        _ => false,
+    }
+}
+
 pub fn next_visibility_modifier(
     source: &mut Peekable<impl Iterator<Item = TokenTree>>,
 ) -> Option<String> {
@@ -476,7 +486,9 @@ pub fn next_visibility_modifier(
 
             // skip (crate) and alike
             if let Some(TokenTree::Group(group)) = source.peek() {
-                if group.delimiter() == Delimiter::Parenthesis {
+                if group.delimiter() == Delimiter::Parenthesis
+                    && is_visibility_restriction(group.stream())
+                {
                     next_group(source);
                 }
             }
-- 
2.43.0


From ab9b9f384c3a16a561e2800a412234996110287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 50/50] fix: round integer literals read as f32 once

An integer literal went through f64 first, so `1152921573326323713` read as
f32 differed from `1152921573326323713.0`.
---
 src/serde_json.rs | 8 +++-----
 src/serde_ron.rs  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 8dbf05c..65f9a00 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -750,11 +750,9 @@ macro_rules! impl_ser_de_json_float {
         impl DeJson for $ty {
             fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<$ty, DeJsonErr> {
                 //s.is_prefix(p, i) ?;
-                let mut val = s.as_f64()? as $ty;
-                if let DeJsonTok::F64(_) = s.tok {
-                    // round the literal once, not to f64 first and then again
-                    val = s.numbuf.parse().unwrap_or(val);
-                }
+                let val = s.as_f64()? as $ty;
+                // round the literal once, not to f64 first and then again
+                let val = s.numbuf.parse().unwrap_or(val);
                 s.next_tok(i)?;
                 return Ok(val);
             }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 5b9c63c..d71a7fd 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -756,11 +756,9 @@ macro_rules! impl_ser_de_ron_float {
         impl DeRon for $ty {
             fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<$ty, DeRonErr> {
                 //s.is_prefix(p, i) ?;
-                let mut val = s.as_f64()? as $ty;
-                if let DeRonTok::F64(_) = s.tok {
-                    // round the literal once, not to f64 first and then again
-                    val = s.numbuf.parse().unwrap_or(val);
-                }
+                let val = s.as_f64()? as $ty;
+                // round the literal once, not to f64 first and then again
+                let val = s.numbuf.parse().unwrap_or(val);
                 s.next_tok(i)?;
                 return Ok(val);
             }
-- 
2.43.0

