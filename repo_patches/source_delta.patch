From 90b0d1adbdde5a44b47347ae2ba3ca19884b5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 01/16] fix: do not count brackets inside string literals while
 splitting arrays and objects

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d379543..54bdc5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -433,19 +433,19 @@ impl Json {
                     }
                     inner.push('\"');
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     inner.push('[');
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     inner.push(']');
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     inner.push('{');
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     inner.push('}');
                 }
@@ -527,7 +527,7 @@ impl Json {
                         v.push('\"');
                     }
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('[');
@@ -535,7 +535,7 @@ impl Json {
                         v.push('[');
                     }
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push(']');
@@ -543,7 +543,7 @@ impl Json {
                         v.push(']');
                     }
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('{');
@@ -551,7 +551,7 @@ impl Json {
                         v.push('{');
                     }
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push('}');
-- 
2.43.0


From c4bf4a3de8315c95238df3f17924d07cc88d1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 02/16] fix: keep whitespace between the tokens of array
 elements and object members

---
 src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 54bdc5b..56a1ffa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -404,7 +404,7 @@ impl Json {
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -422,7 +422,7 @@ impl Json {
                     if let Some(']') = iter.peek() {
                         return Err(Error::new(ParseArrayError, "invalid trailing comma.".to_string()));
                     }
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     inner.clear();
                 }
                 Some('\"') => {
@@ -457,7 +457,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     inner.push(ch);
                 }
@@ -481,8 +480,8 @@ impl Json {
         loop {
             match iter.next() {
                 Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         loop {
                             match iter.next() {
                                 Some(ch) if is_whitespace(ch) => (),
@@ -503,8 +502,8 @@ impl Json {
                     if let Some('}') = iter.peek() {
                         return Err(Error::new(ParseObjectError, "invalid trailing comma.".to_string()));
                     }
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         k.clear();
                         v.clear();
                         on_key = true;
@@ -577,7 +576,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     if on_key {
                         k.push(ch);
-- 
2.43.0


From 9f1cec5b3d81279ed45caf07bdc38d3a46fec16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 03/16] fix: accept blank empty containers and reject text
 after an empty container

---
 src/lib.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 56a1ffa..352083c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,9 +394,6 @@ impl Json {
     fn parse_array(json: &str) -> Result<Json, Error> {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some(']') = iter.peek() {
-            return Ok(Json::Array(array));
-        }
 
         let mut i = 0;
         let mut j = 0;
@@ -404,7 +401,9 @@ impl Json {
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::parse(&inner)?);
+                    if !array.is_empty() || !inner.trim_matches(is_whitespace).is_empty() {
+                        array.push(Json::parse(&inner)?);
+                    }
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -468,9 +467,6 @@ impl Json {
     fn parse_object(json: &str) -> Result<Json, Error> {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some('}') = iter.peek() {
-            return Ok(Json::Object(object));
-        }
 
         let mut i = 0;
         let mut j = 0;
@@ -479,6 +475,17 @@ impl Json {
         let mut on_key = true;
         loop {
             match iter.next() {
+                Some('}') if i == 0 && j == 0 && on_key && object.is_empty() && k.trim_matches(is_whitespace).is_empty() => {
+                    loop {
+                        match iter.next() {
+                            Some(ch) if is_whitespace(ch) => (),
+                            Some(ch) => return Err(Error::new(ParseObjectError,
+                                                              format!("invalid trailing character: {}.", ch))),
+                            None => break
+                        }
+                    }
+                    return Ok(Json::Object(object));
+                }
                 Some('}') if i == 0 && j == 0 && !on_key => {
                     if let Ok(Json::String(key)) = Json::parse(&k) {
                         object_insert(&mut object, key, Json::parse(&v)?);
-- 
2.43.0


From 4d2b8e9b54fe322759128d7ffcbea826b53e63db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 04/16] fix: treat only the first top-level colon of a member
 as the separator

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 352083c..88a3890 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -518,7 +518,7 @@ impl Json {
                         return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
                 }
-                Some(':') if i == 0 && j == 0 => {
+                Some(':') if i == 0 && j == 0 && on_key => {
                     on_key = false;
                 }
                 Some('\"') => {
-- 
2.43.0


From 096edbc8f19e7ac562d287d90f37e697a332e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 05/16] fix: reject numbers with leading zeros

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88a3890..2a77388 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -752,7 +752,7 @@ fn valid_number(num: &str) -> bool {
         _ => ()
     }
 
-    true
+    iter.peek().is_none()
 }
 
 #[inline]
-- 
2.43.0


From 97804ba471b13c45bf5d20631ae7a2721b3ff4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 06/16] fix: report an out-of-range index from Json::remove
 instead of panicking

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2a77388..a87470d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,6 +218,10 @@ impl Json {
     pub fn remove(&mut self, i: usize) -> Result<(), Error> {
         match self {
             Json::Array(vec) => {
+                if i >= vec.len() {
+                    return Err(Error::new(IndexOutOfRange,
+                                          format!("index {} out of range.", i)));
+                }
                 vec.remove(i);
                 Ok(())
             }
-- 
2.43.0


From 73ba21cd39ee6ce82cd0190f905e24af81634f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 07/16] fix: serialize non-finite numbers as null

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index a87470d..f32e798 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,7 @@ impl ToString for Json {
                             .join(", "))
             }
             Json::String(s) => escape(s),
+            Json::Number(f) if !f.is_finite() => "null".to_string(),
             Json::Number(f) => (*f).to_string(),
             Json::Boolean(b) => (*b).to_string(),
             Json::Null => "null".to_string(),
-- 
2.43.0


From 21a37b1069855b6ec8874a404158a04aaac48fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 08/16] fix: report an index that cannot be allocated instead
 of panicking in set/update

---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f32e798..5b3f15f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1316,11 +1316,13 @@ impl Finder {
                 match json {
                     Json::Array(vec) => {
                         if *i >= vec.len() {
+                            reserve_index(vec, *i)?;
                             vec.resize(*i + 1, Json::Null);
                         }
                     }
                     _ => {
-                        let mut vec = Vec::with_capacity(*i + 1);
+                        let mut vec = Vec::new();
+                        reserve_index(&mut vec, *i)?;
                         vec.resize(*i + 1, Json::Null);
                         *json = Json::Array(vec);
                     }
@@ -1333,6 +1335,14 @@ impl Finder {
     }
 }
 
+fn reserve_index(vec: &mut Vec<Json>, i: usize) -> Result<(), Error> {
+    match i.checked_add(1) {
+        Some(n) if vec.try_reserve(n.saturating_sub(vec.len())).is_ok() => Ok(()),
+        _ => Err(Error::new(IndexOutOfRange,
+                            format!("index {} out of range.", i)))
+    }
+}
+
 impl From<String> for Finder {
     fn from(s: String) -> Finder {
         Finder::Key(s)
-- 
2.43.0


From 5fd220905f8f7a0a3684f75f6ec5696294b19e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 09/16] fix: count bracket depth in isize so that it cannot
 overflow

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b3f15f..27179ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -400,7 +400,7 @@ impl Json {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
 
-        let mut i = 0;
+        let mut i: isize = 0;
         let mut j = 0;
         let mut inner = String::new();
         loop {
@@ -473,7 +473,7 @@ impl Json {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
 
-        let mut i = 0;
+        let mut i: isize = 0;
         let mut j = 0;
         let mut k = String::new();
         let mut v = String::new();
-- 
2.43.0


From bee3b5284566fea72db31dd0b4318a5ca17f9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 10/16] fix: do not register `ignore` as a derive helper, it is
 ambiguous with the built-in attribute

#[ignore] on a field was rejected by the compiler (E0659); the derive sees the built-in attribute just as well.
---
 json_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 2ff7c10..9cc2d60 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -5,7 +5,7 @@ use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
 
-#[proc_macro_derive(JsonEncode, attributes(key, ignore))]
+#[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
@@ -57,7 +57,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
     }
 }
 
-#[proc_macro_derive(JsonDecode, attributes(key, ignore))]
+#[proc_macro_derive(JsonDecode, attributes(key))]
 pub fn json_decode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
-- 
2.43.0


From 36c69d13ce8e7e2f65cb462cc7ada4f283a9d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 11/16] fix: separate a reference's lifetime from its type when
 printing a type

A bound such as Tr<&'a str> was carried over as Tr<&'astr>.
---
 json_derive/parse/src/name.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index afbd19c..075980b 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -295,6 +295,7 @@ impl ToString for Type {
 
             if let Some(lifetime) = &self.lifetime {
                 ty.push_str(&lifetime.to_string());
+                ty.push(' ');
             }
 
             if self.is_mut {
-- 
2.43.0


From 857c5752f9f16ff007c5305c1839734711ce2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 12/16] fix: carry const generic parameters over to derived
 impls

`const N: usize` was carried over as a lifetime.
---
 json_derive/parse/src/generic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 9cefbf0..b309616 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -32,7 +32,7 @@ impl Generics {
         if !self.items.is_empty() {
             format!("<{}>", self.items
                 .iter()
-                .map(|x| x.ident.clone())
+                .map(|x| x.ident.trim_start_matches("const ").to_string())
                 .collect::<Vec<String>>()
                 .join(", "))
         } else {
@@ -302,7 +302,7 @@ impl Parse for GenericItem {
                     }
                     TokenTree::Ident(ident) if &ident.to_string() == "const" => {
                         if let TokenTree::Ident(name) = &ident_tokens[1] {
-                            format!("'{}", name.to_string())
+                            format!("const {}", name.to_string())
                         } else {
                             return Err(Error::new(format!("const generic name should be an Ident, got {}.", &ident_tokens[1])));
                         }
-- 
2.43.0


From 3cb3348c6e9c9d3e0f66027845993d39cdfc9cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 13/16] fix: leave defaults of type parameters out of derived
 impls

A struct such as S<T = i32> did not compile with a derive.
---
 json_derive/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 9cc2d60..302fcd0 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -9,7 +9,11 @@ use json_parse::field::Fields;
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
-        Item::Struct(s) => {
+        Item::Struct(mut s) => {
+            // an impl block must not repeat the defaults of the parameters
+            if let Some(generics) = &mut s.generics {
+                generics.items.iter_mut().for_each(|x| x.default = None);
+            }
             match s.fields {
                 Fields::StructFields(v) => {
                     let v: Vec<(String, String)> = v.iter()
@@ -61,7 +65,11 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
 pub fn json_decode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
-        Item::Struct(s) => {
+        Item::Struct(mut s) => {
+            // an impl block must not repeat the defaults of the parameters
+            if let Some(generics) = &mut s.generics {
+                generics.items.iter_mut().for_each(|x| x.default = None);
+            }
             match s.fields {
                 Fields::StructFields(v) => {
                     let (v, ig): (Vec<_>, Vec<_>) = v.iter().partition(|x| {
-- 
2.43.0


From fee403eb42db23008b3b81c707ee4f8f8df0311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 14/16] fix: emit the literal of a key attribute as written

A raw string or a key with quotes at either end did not compile.
---
 json_derive/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 302fcd0..d322875 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -26,14 +26,15 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().expect("key attribute should be string");
+                                    key.to_string()
                                 } else {
-                                    x.ident.clone()
+                                    format!("{:?}", x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                format!("{:?}", x.ident)
                             };
-                            (format!("\"{}\".to_string()", k), x.ident.clone())
+                            (format!("{}.to_string()", k), x.ident.clone())
                         })
                         .collect();
                     quote! {
@@ -82,14 +83,15 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().expect("key attribute should be string");
+                                    key.to_string()
                                 } else {
-                                    x.ident.clone()
+                                    format!("{:?}", x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                format!("{:?}", x.ident)
                             };
-                            (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
+                            (k, x.ident.clone(), x.ty.used_ty())
                         })
                         .collect();
                     quote! {
-- 
2.43.0


From 1b7c8cf5b96a19dcb5622f65f1a1afcc28fdd90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 15/16] fix: key a field with a raw identifier by its name

The member of r#type was called "r#type".
---
 json_derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index d322875..cf74d62 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -29,10 +29,10 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                                     key.string().expect("key attribute should be string");
                                     key.to_string()
                                 } else {
-                                    format!("{:?}", x.ident)
+                                    format!("{:?}", x.ident.trim_start_matches("r#"))
                                 }
                             } else {
-                                format!("{:?}", x.ident)
+                                format!("{:?}", x.ident.trim_start_matches("r#"))
                             };
                             (format!("{}.to_string()", k), x.ident.clone())
                         })
@@ -86,10 +86,10 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                                     key.string().expect("key attribute should be string");
                                     key.to_string()
                                 } else {
-                                    format!("{:?}", x.ident)
+                                    format!("{:?}", x.ident.trim_start_matches("r#"))
                                 }
                             } else {
-                                format!("{:?}", x.ident)
+                                format!("{:?}", x.ident.trim_start_matches("r#"))
                             };
                             (k, x.ident.clone(), x.ty.used_ty())
                         })
-- 
2.43.0


From 08b7cc080480729cf174fa952d05c8ac2a91f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 16/16] fix: name std's Result in derived decoders

A type alias called Result in scope of the struct made the impl fail to compile.
---
 json_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index cf74d62..1a28a1d 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -98,7 +98,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         impl#(#(&s.generics))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
-                            fn from_json(json: &json::Json) -> Result<Self, json::Error> {
+                            fn from_json(json: &json::Json) -> std::result::Result<Self, json::Error> {
                                 match json {
                                     json::Json::Object(obj) => {
                                         Ok(
-- 
2.43.0

