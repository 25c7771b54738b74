From 1fc92266a448cddd0f9a0b58100a9bab5a8c1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 01/29] fix: report missing padding as not enough data instead
 of panicking

---
 serde-xdr/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index 8f748f2..b4a8f71 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -88,7 +88,7 @@ impl<'de> Deserializer<'de> {
         let v = self.read(size)?;
         let v = str::from_utf8(v)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
@@ -99,7 +99,7 @@ impl<'de> Deserializer<'de> {
 
         let v = self.read(size)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
-- 
2.43.0


From 0fbed7bcf837b509511a94bbad0dcd4aabaa3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 02/29] fix: refuse words outside the range of 8- and 16-bit
 integers

---
 serde-xdr/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index b4a8f71..fd74a0c 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -126,14 +126,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i8(self.read_i32()? as i8)
+        visitor.visit_i8(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i16(self.read_i32()? as i16)
+        visitor.visit_i16(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -154,14 +154,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u8(self.read_u32()? as u8)
+        visitor.visit_u8(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u16(self.read_u32()? as u16)
+        visitor.visit_u16(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 6ab5923ddfe24a2e2f774814c0f450dbfdd8de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 03/29] fix: do not allocate opaque data from an unchecked
 length

---
 serde-xdr/src/opaque.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index b2bf25c..9f8ca41 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -69,16 +69,15 @@ where
 {
     let size = seq.size_hint().unwrap();
 
-    let mut bytes = vec![0u8; size];
+    // The length is not trustworthy before the data is read, so do not allocate it up front.
+    let mut bytes = vec![];
     let padded_len = size.div_ceil(4);
 
-    let mut idx = 0;
     for _ in 0..padded_len {
         if let Some(v) = seq.next_element::<u32>()? {
             for b in v.to_be_bytes() {
-                if idx < size {
-                    bytes[idx] = b;
-                    idx += 1;
+                if bytes.len() < size {
+                    bytes.push(b);
                 }
             }
         }
-- 
2.43.0


From 9f817e11fd8cfbe620f71f6bb5986a78391a18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 04/29] fix: refuse lengths that do not fit in an unsigned
 32-bit word

---
 serde-xdr/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde-xdr/src/ser.rs b/serde-xdr/src/ser.rs
index 81a5946..54818bf 100644
--- a/serde-xdr/src/ser.rs
+++ b/serde-xdr/src/ser.rs
@@ -89,7 +89,7 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
         let size = v.len();
         let padding_size = 4 - size % 4;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         self.output.extend_from_slice(v);
         if padding_size < 4 {
             let mut padding = vec![0u8; padding_size];
@@ -155,7 +155,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
@@ -184,7 +184,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
-- 
2.43.0


From cb0df6814aafa5702569cc7a1270947becc3b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 05/29] fix: accept fixed opaque data longer than 32 bytes

---
 serde-xdr/src/opaque.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index 9f8ca41..0528cbd 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -88,11 +88,11 @@ where
 
 pub mod fixed {
     use serde::de::Deserializer;
-    use serde::ser::{Serialize, SerializeTuple, Serializer};
+    use serde::ser::{SerializeTuple, Serializer};
 
     pub fn serialize<T, S>(value: &T, serializer: S) -> Result<S::Ok, S::Error>
     where
-        T: Serialize + AsRef<[u8]>,
+        T: AsRef<[u8]>,
         S: Serializer,
     {
         let mut buf = value.as_ref().to_vec();
@@ -117,11 +117,11 @@ pub mod fixed {
 
 pub mod variable {
     use serde::de::Deserializer;
-    use serde::ser::{Serialize, SerializeSeq, Serializer};
+    use serde::ser::{SerializeSeq, Serializer};
 
     pub fn serialize<T, S>(value: &T, serializer: S) -> Result<S::Ok, S::Error>
     where
-        T: Serialize + AsRef<[u8]>,
+        T: AsRef<[u8]>,
         S: Serializer,
     {
         let mut buf = value.as_ref().to_vec();
-- 
2.43.0


From 56e7d51553740eba03f274e8ade06621bd0de083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 06/29] fix: decode derived enums with ten or more fields

---
 serde-xdr-derive/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 360cc0c..abbe556 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -10,8 +10,10 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
 
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
+    let mut max_fields = 0usize;
     for variant in ast.variants.iter() {
         let variant_ident = &variant.ident;
+        max_fields = max_fields.max(variant.fields.len());
         match &variant.fields {
             Fields::Named(_) => {
                 unimplemented!();
@@ -57,6 +59,8 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
     }
 
+    // The index is followed by the fields.
+    let max_len = max_fields + 1;
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
             fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -105,7 +109,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrIndexerVisitor)
+                deserializer.deserialize_tuple(#max_len, XdrIndexerVisitor)
             }
         }
     };
@@ -122,8 +126,10 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
     let mut value_ty: Option<Type> = None;
+    let mut max_len = 1usize;
     for variant in ast.variants.iter() {
         let variant_ident = &variant.ident;
+        max_len = max_len.max(variant.fields.len());
         match &variant.fields {
             Fields::Named(_) => {
                 unimplemented!();
@@ -228,7 +234,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrUnionVisitor)
+                deserializer.deserialize_tuple(#max_len, XdrUnionVisitor)
             }
         }
     };
-- 
2.43.0


From b8bb2cf4418b0071434e586d41d8126838e3989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 07/29] fix: do not let derived generics shadow types named A,
 D or S

---
 serde-xdr-derive/src/lib.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index abbe556..06b65aa 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -63,9 +63,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
     let max_len = max_fields + 1;
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            fn serialize<__S>(&self, serializer: __S) -> Result<__S::Ok, __S::Error>
             where
-                S: ::serde::ser::Serializer,
+                __S: ::serde::ser::Serializer,
             {
                 let index = self.index();
 
@@ -82,9 +82,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            fn deserialize<__D>(deserializer: __D) -> Result<Self, __D::Error>
             where
-                D: ::serde::de::Deserializer<'de>
+                __D: ::serde::de::Deserializer<'de>
             {
                 struct XdrIndexerVisitor;
 
@@ -95,9 +95,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+                    fn visit_seq<__A>(self, mut seq: __A) -> Result<Self::Value, __A::Error>
                     where
-                        A: ::serde::de::SeqAccess<'de>,
+                        __A: ::serde::de::SeqAccess<'de>,
                     {
                         let index = seq.next_element::<i32>()?.unwrap();
                         let variant = Self::Value::name_by_index(index)
@@ -191,9 +191,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let value_ty = value_ty.unwrap();
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            fn serialize<__S>(&self, serializer: __S) -> Result<__S::Ok, __S::Error>
             where
-                S: ::serde::ser::Serializer,
+                __S: ::serde::ser::Serializer,
             {
                 let mut ser = serializer.serialize_tuple(2usize)?;
 
@@ -207,9 +207,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            fn deserialize<__D>(deserializer: __D) -> Result<Self, __D::Error>
             where
-                D: ::serde::de::Deserializer<'de>
+                __D: ::serde::de::Deserializer<'de>
             {
                 struct XdrUnionVisitor;
 
@@ -220,9 +220,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+                    fn visit_seq<__A>(self, mut seq: __A) -> Result<Self::Value, __A::Error>
                     where
-                        A: ::serde::de::SeqAccess<'de>,
+                        __A: ::serde::de::SeqAccess<'de>,
                     {
                         let value = seq.next_element::<#value_ty>()?.unwrap();
                         let variant = Self::Value::name_by_value(&value)
-- 
2.43.0


From 7cf7cb6c0d9e9adbddaa0c8e48ef7e7f43f48251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 08/29] fix: end built-in type keywords at a word boundary

A keyword type directly followed by '*' or ')' was refused, and type
names beginning with 'void' were read as the keyword.
---
 rpcgen/src/parser.rs | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b178a94..6a2e829 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, opt, peek, recognize, verify},
+    combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -499,7 +499,7 @@ fn decimal_nonzero(input: &str) -> IResult<&str, Constant> {
 fn declaration(input: &str) -> IResult<&str, Declaration> {
     // 優先度順に並べる。
     alt((
-        map(tag("void"), |_| Declaration::void()),
+        map(terminated(tag("void"), word_end), |_| Declaration::void()),
         map(
             (
                 preceded((tag("opaque"), multispace1), identifier),
@@ -671,22 +671,22 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("int"), peek(multispace1)),
+                terminated(tag("int"), word_end),
             ),
             |_| TypeSpecifier::Int(false),
         ),
-        map(terminated(tag("int"), peek(multispace1)), |_| {
+        map(terminated(tag("int"), word_end), |_| {
             TypeSpecifier::Int(true)
         }),
         map(
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("hyper"), peek(multispace1)),
+                terminated(tag("hyper"), word_end),
             ),
             |_| TypeSpecifier::Hyper(false),
         ),
-        map(terminated(tag("hyper"), peek(multispace1)), |_| {
+        map(terminated(tag("hyper"), word_end), |_| {
             TypeSpecifier::Hyper(true)
         }),
         // start (libvirt extenstion)
@@ -694,40 +694,36 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("char"), peek(multispace1)),
+                terminated(tag("char"), word_end),
             ),
             |_| TypeSpecifier::Char(false),
         ),
-        map(terminated(tag("char"), peek(multispace1)), |_| {
+        map(terminated(tag("char"), word_end), |_| {
             TypeSpecifier::Char(true)
         }),
         map(
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("short"), peek(multispace1)),
+                terminated(tag("short"), word_end),
             ),
             |_| TypeSpecifier::Short(false),
         ),
-        map(terminated(tag("short"), peek(multispace1)), |_| {
+        map(terminated(tag("short"), word_end), |_| {
             TypeSpecifier::Short(true)
         }),
-        map(terminated(tag("unsigned"), peek(multispace1)), |_| {
+        map(terminated(tag("unsigned"), word_end), |_| {
             TypeSpecifier::Int(false)
         }),
         // end (libvirt extenstion)
-        map(terminated(tag("float"), peek(multispace1)), |_| {
-            TypeSpecifier::Float
-        }),
-        map(terminated(tag("double"), peek(multispace1)), |_| {
+        map(terminated(tag("float"), word_end), |_| TypeSpecifier::Float),
+        map(terminated(tag("double"), word_end), |_| {
             TypeSpecifier::Double
         }),
-        map(terminated(tag("quadruple"), peek(multispace1)), |_| {
+        map(terminated(tag("quadruple"), word_end), |_| {
             TypeSpecifier::Quadruple
         }),
-        map(terminated(tag("bool"), peek(multispace1)), |_| {
-            TypeSpecifier::Bool
-        }),
+        map(terminated(tag("bool"), word_end), |_| TypeSpecifier::Bool),
         map(enum_type_spec, TypeSpecifier::enum_type),
         map(struct_type_spec, TypeSpecifier::struct_type),
         map(union_type_spec, TypeSpecifier::union_type),
@@ -775,6 +771,10 @@ fn value(input: &str) -> IResult<&str, Value> {
     .parse(input)
 }
 
+fn word_end(input: &str) -> IResult<&str, ()> {
+    not(alt((alphanumeric1, tag("_")))).parse(input)
+}
+
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
-- 
2.43.0


From 8577f64f7bf21bceb5365b04e8ff7d3f80c39613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 09/29] fix: do not split an identifier beginning with 'case'

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 6a2e829..db5cab7 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -444,7 +444,7 @@ fn case_spec(input: &str) -> IResult<&str, CaseSpec> {
     map(
         (
             many1(delimited(
-                (comment0, tag("case"), comment0),
+                (comment0, tag("case"), word_end, comment0),
                 value,
                 (comment0, tag(":"), comment0),
             )),
-- 
2.43.0


From 70459b78e86b115a6f1a9d22fbe4526992886c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 10/29] fix: parse programs with more than one version

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index db5cab7..0a3936c 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -781,7 +781,7 @@ fn program(input: &str) -> IResult<&str, Program> {
             preceded((tag("program"), multispace1), identifier),
             delimited(
                 (multispace0, tag("{"), multispace0),
-                many1(version),
+                many1(terminated(version, multispace0)),
                 (multispace0, tag("}"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
-- 
2.43.0


From f8361653409462c28f21fb852f184210ab2a0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 11/29] fix: refuse a void struct member instead of panicking

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c518714..cadbca1 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -384,7 +384,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().unwrap().to_string();
+        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
-- 
2.43.0


From 33f0acd7731bf79c8632e1dd9a7326d2624f2be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 12/29] fix: refuse negative enumerators when complementing
 indexes

---
 rpcgen/src/gen_code.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index cadbca1..0a49716 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -255,6 +255,11 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     let mut start: i32 = 0;
     for (end, assign) in indexed {
         if cxt.config.enum_complement_index() {
+            // The index is the position, so there is no place for a negative one.
+            if end < 0 {
+                return Err(Error::NotSupported);
+            }
+
             for index in start..end {
                 // enum は index でシリアライズするため存在しない値は補完する。
                 let reserved = format_ident!("_Reserved{}", index.to_string());
-- 
2.43.0


From 695b6b7fae92a0157ce1a88f35bcd84c2bbf9345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 13/29] fix: do not overflow on enumerators and labels at the
 limits

---
 rpcgen/src/gen_code.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 0a49716..1d04776 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -7,6 +7,9 @@ use proc_macro2::{Ident, TokenStream};
 use quote::{ToTokens, format_ident, quote};
 use std::convert::TryFrom;
 
+// The highest index up to which missing indexes are complemented.
+const MAX_COMPLEMENT: i32 = 0xFFFF;
+
 #[derive(Clone, Default)]
 pub struct Config {
     pub remove_typedef: bool,
@@ -256,7 +259,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     for (end, assign) in indexed {
         if cxt.config.enum_complement_index() {
             // The index is the position, so there is no place for a negative one.
-            if end < 0 {
+            if end < 0 || end > MAX_COMPLEMENT {
                 return Err(Error::NotSupported);
             }
 
@@ -290,7 +293,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             default_value = Some(quote! { #item_ident });
         }
 
-        start = end + 1;
+        start = end.saturating_add(1);
     }
 
     let as_ref = if cxt.config.enum_impl_std_trait {
@@ -451,7 +454,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             let mut values = vec![];
             for spec in &body.specs {
                 for value in &spec.values {
-                    let index = cxt.resolve_value(value)?;
+                    let index = cxt.resolve_value::<u32>(value)?;
                     values.push((index, spec.declaration.clone(), value));
                 }
             }
@@ -461,6 +464,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             let mut sindex: u32 = 0;
             for (eindex, decl, value_token) in values {
                 if cxt.config.union_complement_index() {
+                    if eindex > MAX_COMPLEMENT as u32 {
+                        return Err(Error::NotSupported);
+                    }
+
                     for index in sindex..eindex {
                         // enum は index でシリアライズするため存在しない値は補完する。
                         let reserved = format_ident!("_Reserved{}", index.to_string());
@@ -502,7 +509,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
 
-                sindex = eindex + 1;
+                sindex = eindex.saturating_add(1);
 
                 xdr_union_cond_type = Some(tmp_type);
             }
-- 
2.43.0


From b4e3398dd0426444cc0d9d7fbfd79fc13edcf8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 14/29] fix: refuse circular constants and typedefs instead of
 overflowing the stack

---
 rpcgen/src/gen_code.rs | 46 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 1d04776..f7d018c 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -94,6 +94,51 @@ impl Context {
             .or_else(|_| self.resolve_enum_value::<T>(name))
     }
 
+    fn check_circular(&self) -> Result<(), Error> {
+        let enumerators = self.typedefs.iter().flat_map(|(_, def)| match def {
+            TypeDef::Enum(_, assigns) => assigns.as_slice(),
+            _ => &[],
+        });
+        let values: Vec<_> = self
+            .constants
+            .iter()
+            .map(|(name, value)| (name, value))
+            .chain(enumerators.map(|a| (&a.identifier, &a.value)))
+            .collect();
+
+        for (name, value) in &values {
+            let mut value = *value;
+            let mut depth = 0;
+            while let Value::Identifier(i) = value {
+                match values.iter().find(|(n, _)| *n == i) {
+                    Some((_, v)) if depth < values.len() => value = v,
+                    _ => return Err(Error::NotFountIdentifier(name.to_string())),
+                }
+                depth += 1;
+            }
+        }
+
+        for (name, typedef) in &self.typedefs {
+            let mut typedef = Some(typedef);
+            let mut depth = 0;
+            while let Some(TypeDef::Declaration(
+                Declaration::Variable(TypeSpecifier::Identifier(i), _)
+                | Declaration::FixedArray(TypeSpecifier::Identifier(i), _, _)
+                | Declaration::VariableArray(TypeSpecifier::Identifier(i), _, _)
+                | Declaration::OptionVariable(TypeSpecifier::Identifier(i), _),
+            )) = typedef
+            {
+                if depth >= self.typedefs.len() {
+                    return Err(Error::NotFountIdentifier(name.to_string()));
+                }
+                typedef = self.typedefs.iter().find(|(n, _)| n == i).map(|(_, d)| d);
+                depth += 1;
+            }
+        }
+
+        Ok(())
+    }
+
     fn resolve_value<'a, T>(&'a self, value: &'a Value) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
@@ -116,6 +161,7 @@ enum OpaqueType {
 pub fn gen_code(definitions: Vec<Definition>, config: &Config) -> Result<String, Error> {
     let mut cxt = Context::new(config);
     setup_context(&definitions, &mut cxt)?;
+    cxt.check_circular()?;
 
     let constants = constants_token(&cxt)?;
     let types = types_token(&cxt)?;
-- 
2.43.0


From f86afbfdffd3fc31ffcd532f13ff7e6091d23406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 15/29] fix: resolve constants and array sizes to their numbers

A name of an enumerator, of a 64-bit constant or of an array size
constant made code which does not compile.
---
 rpcgen/src/gen_code.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index f7d018c..a4a47d7 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -234,13 +234,14 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
 
     for (name, value) in &cxt.constants {
         let name_ident = format_ident!("{}", name);
-        let (value_token, ty) = match convert_value_token::<u32>(value, false) {
-            Ok(v) => Ok((v, quote! { u32 })),
-            Err(_) => match convert_value_token::<u64>(value, false) {
-                Ok(v) => Ok((v, quote! { u64 })),
-                Err(e) => Err(e),
-            },
-        }?;
+        // A name may be an enumerator or another constant of a different type.
+        let (value_token, ty) = match cxt.resolve_value::<u32>(value) {
+            Ok(v) => (quote! { #v }, quote! { u32 }),
+            Err(_) => {
+                let v = cxt.resolve_value::<u64>(value)?;
+                (quote! { #v }, quote! { u64 })
+            }
+        };
         results.push(quote! {
             pub const #name_ident: #ty = #value_token;
         });
@@ -787,7 +788,7 @@ fn convert_type_token(
         }
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            let len = convert_value_token::<usize>(value, false)?;
+            let len = cxt.resolve_value::<usize>(value)?;
             Ok(Some((quote! { [#ty; #len] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
@@ -803,8 +804,8 @@ fn convert_type_token(
             }
         }
         Declaration::OpaqueFixedArray(_, value) => {
-            let len = convert_value_token::<usize>(value, false)?;
-            Ok(Some((quote! { [u8; #len as usize] }, OpaqueType::Fixed)))
+            let len = cxt.resolve_value::<usize>(value)?;
+            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed)))
         }
         Declaration::OpaqueVariableArray(_, _) => {
             Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
-- 
2.43.0


From 12b69c33a14883d6e23d8dbaf76236e77bca413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 16/29] fix: escape names after converting their case

The conversion may produce a Rust keyword, an empty name or a leading
digit, and some keywords can not be raw identifiers.
---
 rpcgen/src/gen_code.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a4a47d7..ff506ee 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -233,7 +233,7 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
     let mut results = vec![];
 
     for (name, value) in &cxt.constants {
-        let name_ident = format_ident!("{}", name);
+        let name_ident = escaped_ident(name);
         // A name may be an enumerator or another constant of a different type.
         let (value_token, ty) = match cxt.resolve_value::<u32>(value) {
             Ok(v) => (quote! { #v }, quote! { u32 }),
@@ -439,7 +439,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
+        let field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -456,10 +456,6 @@ fn convert_struct_token(
             }
         };
 
-        if keyword::rust_reserved(&field_name) {
-            field_name = format!("r#{field_name}");
-        }
-
         let field_name_ident = snake_case_ident(&field_name);
 
         if struct_type == declaration.type_specifier() {
@@ -770,7 +766,7 @@ where
             let v = if cnv {
                 upper_camel_case_ident(i)
             } else {
-                format_ident!("{}", i)
+                escaped_ident(i)
             };
             Ok(quote! { #v })
         }
@@ -954,6 +950,17 @@ fn resolve_type_token(value: &str, cxt: &Context) -> Result<(TokenStream, Opaque
     Ok((quote! { #name }, OpaqueType::None))
 }
 
+fn escaped_ident(value: &str) -> Ident {
+    match value {
+        "" | "_" => format_ident!("__"),
+        // These can not be raw identifiers.
+        "Self" | "self" | "super" | "crate" => format_ident!("{}_", value),
+        v if keyword::rust_reserved(v) => format_ident!("r#{}", v),
+        v if v.starts_with(char::is_numeric) => format_ident!("_{}", v),
+        v => format_ident!("{}", v),
+    }
+}
+
 fn upper_camel_case(value: &str) -> String {
     if value.contains('_') {
         value
@@ -976,7 +983,7 @@ fn upper_camel_case(value: &str) -> String {
 }
 
 fn upper_camel_case_ident(value: &str) -> Ident {
-    format_ident!("{}", upper_camel_case(value))
+    escaped_ident(&upper_camel_case(value))
 }
 
 fn capitalize(value: &str) -> String {
@@ -1029,7 +1036,7 @@ fn snake_case(value: &str) -> String {
 }
 
 fn snake_case_ident(value: &str) -> Ident {
-    format_ident!("{}", snake_case(value))
+    escaped_ident(&snake_case(value))
 }
 
 fn with_underscore(value: &str) -> String {
-- 
2.43.0


From 06022f17cebb40276fb586755f893a0df43cd7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 17/29] fix: look through typedefs of enums and discriminants

---
 rpcgen/src/gen_code.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index ff506ee..f6d72ee 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -45,7 +45,7 @@ impl Context {
     }
 
     pub fn is_enum_type(&self, ty: TypeSpecifier) -> bool {
-        if let TypeSpecifier::Identifier(name) = ty {
+        if let TypeSpecifier::Identifier(name) = self.resolve_type(&ty) {
             return self.typedefs.iter().any(|(_, def)| match def {
                 TypeDef::Enum(identifier, _) => &name == identifier,
                 _ => false,
@@ -55,6 +55,18 @@ impl Context {
         false
     }
 
+    // Follow the names of typedefs to the type which they stand for.
+    fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
+        if let TypeSpecifier::Identifier(name) = ty {
+            let typedef = self.typedefs.iter().find(|(n, _)| n == name);
+            if let Some((_, TypeDef::Declaration(Declaration::Variable(ty, _)))) = typedef {
+                return self.resolve_type(ty);
+            }
+        }
+
+        ty.clone()
+    }
+
     pub fn resolve_const_value<'a, T>(&'a self, name: &str) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
@@ -488,9 +500,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let name_ident = upper_camel_case_ident(name);
 
     let cond_type = match &body.cond {
-        Declaration::Variable(cond_type, _) => Ok(cond_type),
+        Declaration::Variable(cond_type, _) => Ok(cxt.resolve_type(cond_type)),
         _ => Err(Error::NotSupported),
     }?;
+    let cond_type = &cond_type;
 
     match cond_type {
         TypeSpecifier::Int(_) | TypeSpecifier::Identifier(_) => {
-- 
2.43.0


From 32d38b914809c8e4c5855da960fea81cf7e27153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 18/29] fix: name the arms of numeric case labels

---
 rpcgen/src/gen_code.rs | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index f6d72ee..43567c8 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -4,7 +4,7 @@ use crate::parser::{
     Assign, Constant, Declaration, Definition, TypeDef, TypeSpecifier, UnionBody, Value,
 };
 use proc_macro2::{Ident, TokenStream};
-use quote::{ToTokens, format_ident, quote};
+use quote::{format_ident, quote};
 use std::convert::TryFrom;
 
 // The highest index up to which missing indexes are complemented.
@@ -766,26 +766,6 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     })
 }
 
-fn convert_value_token<'a, T>(value: &'a Value, cnv: bool) -> Result<TokenStream, Error>
-where
-    T: TryFrom<&'a Constant> + ToTokens,
-{
-    match value {
-        Value::Constant(c) => {
-            let v = c.value::<T>()?;
-            Ok(quote! { #v })
-        }
-        Value::Identifier(i) => {
-            let v = if cnv {
-                upper_camel_case_ident(i)
-            } else {
-                escaped_ident(i)
-            };
-            Ok(quote! { #v })
-        }
-    }
-}
-
 fn convert_type_token(
     declaration: &Declaration,
     cxt: &Context,
@@ -883,7 +863,11 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value, true)?;
+    let value = match value {
+        Value::Constant(c) => escaped_ident(&c.value::<u32>()?.to_string()),
+        Value::Identifier(i) => upper_camel_case_ident(i),
+    };
+    let value = quote! { #value };
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
-- 
2.43.0


From 4b1a895908a21db4ccb0e0a73d3ed97d926ccd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 19/29] fix: match union discriminants by number and type

A label of a signed discriminant was emitted as an unsigned literal, and
a label of an enum discriminant which is a number or a constant was lost.
---
 rpcgen/src/gen_code.rs | 46 +++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 43567c8..b4ba7ba 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -3,8 +3,8 @@ use crate::keyword;
 use crate::parser::{
     Assign, Constant, Declaration, Definition, TypeDef, TypeSpecifier, UnionBody, Value,
 };
-use proc_macro2::{Ident, TokenStream};
-use quote::{format_ident, quote};
+use proc_macro2::{Ident, Literal, TokenStream};
+use quote::{ToTokens, format_ident, quote};
 use std::convert::TryFrom;
 
 // The highest index up to which missing indexes are complemented.
@@ -55,6 +55,23 @@ impl Context {
         false
     }
 
+    fn enum_item(&self, name: &str, index: i32) -> Result<&str, Error> {
+        for (_, typedef) in &self.typedefs {
+            match typedef {
+                TypeDef::Enum(identifier, assigns) if identifier == name => {
+                    for assign in assigns {
+                        if self.resolve_value::<i32>(&assign.value)? == index {
+                            return Ok(&assign.identifier);
+                        }
+                    }
+                }
+                _ => {}
+            }
+        }
+
+        Err(Error::NotFountIdentifier(name.to_string()))
+    }
+
     // Follow the names of typedefs to the type which they stand for.
     fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
         if let TypeSpecifier::Identifier(name) = ty {
@@ -540,7 +557,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     default_value = Some(default);
                 }
 
-                let index = eindex as i32;
+                let index = match cond_type {
+                    TypeSpecifier::Int(false) => eindex as i32,
+                    _ => i32::try_from(eindex).map_err(|_| Error::NotSupported)?,
+                };
                 xdr_indexer_name_by_index.push(quote! {
                     #index => Ok(stringify!(#variant))
                 });
@@ -549,19 +569,17 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     #name_ident::#variant_arm => #index
                 });
 
-                if cxt.is_enum_type(cond_type.clone()) {
-                    if let TypeSpecifier::Identifier(cond_type) = cond_type {
-                        let cond_type_ident = upper_camel_case_ident(cond_type);
-                        if let Value::Identifier(value) = value_token {
-                            let value_ident = upper_camel_case_ident(value);
-                            xdr_union_name_by_value.push(quote! {
-                                #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                            });
+                if cxt.config.union_impl_union {
+                    let pattern = match cond_type {
+                        TypeSpecifier::Identifier(name) => {
+                            let cond_type_ident = upper_camel_case_ident(name);
+                            let value_ident = upper_camel_case_ident(cxt.enum_item(name, index)?);
+                            quote! { #cond_type_ident::#value_ident }
                         }
-                    }
-                } else {
+                        _ => Literal::u32_unsuffixed(eindex).into_token_stream(),
+                    };
                     xdr_union_name_by_value.push(quote! {
-                        #eindex => Ok(stringify!(#variant))
+                        #pattern => Ok(stringify!(#variant))
                     });
                 }
 
-- 
2.43.0


From 4ee45df839cd4b59ee28d77c5674add0e8d40fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 20/29] fix: handle boolean unions which do not label both
 values

---
 rpcgen/src/gen_code.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index b4ba7ba..ddb876a 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -589,6 +589,11 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             }
         }
         TypeSpecifier::Bool => {
+            let mut labels = body.specs.iter().flat_map(|s| &s.values);
+            if labels.any(|v| !v.is_false() && !v.is_true()) {
+                return Err(Error::NotSupported);
+            }
+
             let false_case = body
                 .specs
                 .iter()
@@ -733,13 +738,14 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     };
 
     let xdr_union = if cxt.config.union_impl_union {
-        let xdr_union_name_by_value_default_arm = if cond_type == &TypeSpecifier::Bool {
-            quote! {}
-        } else if body.default.is_some() {
-            quote! { _ => Ok(stringify!(Default)), }
-        } else {
-            quote! { _ => Err(::serde_xdr::error::Error::Convert), }
-        };
+        let xdr_union_name_by_value_default_arm =
+            if cond_type == &TypeSpecifier::Bool && xdr_union_name_by_value.len() == 2 {
+                quote! {}
+            } else if body.default.is_some() {
+                quote! { _ => Ok(stringify!(Default)), }
+            } else {
+                quote! { _ => Err(::serde_xdr::error::Error::Convert), }
+            };
 
         quote! {
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
-- 
2.43.0


From 22e13f09076a63e884d7d2fa85d52771358e07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 21/29] fix: encode opaque data in arrays, optionals and union
 arms as declared

A fixed opaque arm was encoded as variable opaque data, an opaque default
arm as an array of integers, and opaque data as an array element or as
optional data did not compile.
---
 rpcgen/src/gen_code.rs  | 41 ++++++++++++++++++++++++-----------------
 serde-xdr/src/opaque.rs | 12 ++++++++++++
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index ddb876a..e39193d 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -183,10 +183,21 @@ impl Context {
 #[derive(Clone, Debug, PartialEq)]
 enum OpaqueType {
     None,
-    Fixed,
+    Fixed(usize),
     Variable,
 }
 
+impl OpaqueType {
+    // The wrapper object of opaque data where serde attributes are not available.
+    fn wrap(&self, ty: TokenStream) -> TokenStream {
+        match self {
+            OpaqueType::None => ty,
+            OpaqueType::Fixed(len) => quote! { serde_xdr::opaque::FixedArray<#len> },
+            OpaqueType::Variable => quote! { serde_xdr::opaque::VariableArray },
+        }
+    }
+}
+
 pub fn gen_code(definitions: Vec<Definition>, config: &Config) -> Result<String, Error> {
     let mut cxt = Context::new(config);
     setup_context(&definitions, &mut cxt)?;
@@ -472,7 +483,7 @@ fn convert_struct_token(
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
-            OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
+            OpaqueType::Fixed(_) => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
             OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
             _ => {
                 if cxt.config.enum_impl_std_trait
@@ -672,7 +683,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((v_ty, _)) = convert_type_token(default, cxt)? {
+        if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
+            let v_ty = opaque.wrap(v_ty);
             if cxt.config.union_impl_union {
                 specs.push(quote! {
                     Default(#xdr_union_cond_type, #v_ty)
@@ -802,23 +814,17 @@ fn convert_type_token(
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
             let len = cxt.resolve_value::<usize>(value)?;
-            Ok(Some((quote! { [#ty; #len] }, opaque)))
+            let ty = opaque.wrap(ty);
+            Ok(Some((quote! { [#ty; #len] }, OpaqueType::None)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            if opaque == OpaqueType::Variable {
-                Ok(Some((
-                    quote! { Vec<serde_xdr::opaque::VariableArray> },
-                    OpaqueType::None,
-                )))
-            } else {
-                // TODO: Add inner fixed opaque array support.
-                Ok(Some((quote! { Vec<#ty> }, opaque)))
-            }
+            let ty = opaque.wrap(ty);
+            Ok(Some((quote! { Vec<#ty> }, OpaqueType::None)))
         }
         Declaration::OpaqueFixedArray(_, value) => {
             let len = cxt.resolve_value::<usize>(value)?;
-            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed)))
+            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed(len))))
         }
         Declaration::OpaqueVariableArray(_, _) => {
             Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
@@ -826,7 +832,8 @@ fn convert_type_token(
         Declaration::String(_, _) => Ok(Some((quote! { String }, OpaqueType::None))),
         Declaration::OptionVariable(type_specifier, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            Ok(Some((quote! { Option<#ty> }, opaque)))
+            let ty = opaque.wrap(ty);
+            Ok(Some((quote! { Option<#ty> }, OpaqueType::None)))
         }
         Declaration::Void => Ok(None),
     }
@@ -908,11 +915,11 @@ fn convert_case_token(
     if let Some((mut v_ty, opaque)) = decl {
         let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
             // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
-            v_ty = quote! { serde_xdr::opaque::VariableArray };
+            v_ty = opaque.wrap(v_ty);
             quote! {}
         } else {
             match opaque {
-                OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
+                OpaqueType::Fixed(_) => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
                 OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
                 _ => quote! {},
             }
diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index 0528cbd..40194ef 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -9,6 +9,18 @@ pub struct VariableArray {
     pub data: Vec<u8>,
 }
 
+#[derive(Clone, Debug, Deserialize, PartialEq, Serialize)]
+pub struct FixedArray<const N: usize> {
+    #[serde(with = "fixed")]
+    pub data: [u8; N],
+}
+
+impl<const N: usize> Default for FixedArray<N> {
+    fn default() -> Self {
+        FixedArray { data: [0u8; N] }
+    }
+}
+
 struct OpaqueVisitor<T> {
     marker: PhantomData<T>,
 }
-- 
2.43.0


From 8153c73ce106093f191fea554fab17069f3622dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 22/29] fix: generate code which compiles for fixed opaque data
 longer than 32 bytes

---
 rpcgen/src/gen_code.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index e39193d..884f45f 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -824,7 +824,12 @@ fn convert_type_token(
         }
         Declaration::OpaqueFixedArray(_, value) => {
             let len = cxt.resolve_value::<usize>(value)?;
-            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed(len))))
+            let ty = quote! { [u8; #len] };
+            if len > 32 {
+                // A longer array does not implement `Default`.
+                return Ok(Some((OpaqueType::Fixed(len).wrap(ty), OpaqueType::None)));
+            }
+            Ok(Some((ty, OpaqueType::Fixed(len))))
         }
         Declaration::OpaqueVariableArray(_, _) => {
             Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
-- 
2.43.0


From 46e6f09a30f7c805e59e240859cd5bb14de4955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 23/29] fix: encode enums with standard traits by number in
 every position

Outside of a plain struct field the derived traits used the position.
---
 rpcgen/src/gen_code.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 884f45f..689b807 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -414,6 +414,31 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! {}
     };
 
+    // Use the number everywhere, not only in a struct field with the `signed32` attribute.
+    let serde = if cxt.config.enum_impl_std_trait && !cxt.config.enum_impl_indexer {
+        quote! {
+            impl Serialize for #name_ident {
+                fn serialize<__S>(&self, serializer: __S) -> Result<__S::Ok, __S::Error>
+                where
+                    __S: serde::Serializer,
+                {
+                    serde_xdr::primitive::signed32::serialize(self, serializer)
+                }
+            }
+
+            impl<'de> Deserialize<'de> for #name_ident {
+                fn deserialize<__D>(deserializer: __D) -> Result<Self, __D::Error>
+                where
+                    __D: serde::Deserializer<'de>,
+                {
+                    serde_xdr::primitive::signed32::deserialize(deserializer)
+                }
+            }
+        }
+    } else {
+        quote! {}
+    };
+
     let indexer = if cxt.config.enum_impl_indexer {
         let xdr_indexer_name_by_index_default_arm = match default_value {
             Some(ref v) => quote! { _ => Ok(stringify!(#v)) },
@@ -444,6 +469,8 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let derive = if cxt.config.enum_impl_indexer {
         quote! { #[derive(Clone, Debug, PartialEq, XdrIndexer)] }
+    } else if cxt.config.enum_impl_std_trait {
+        quote! { #[derive(Clone, Debug, PartialEq)] }
     } else {
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
@@ -466,6 +493,8 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
         #try_from
 
+        #serde
+
         #indexer
     })
 }
@@ -485,15 +514,14 @@ fn convert_struct_token(
         let derive = match opaque {
             OpaqueType::Fixed(_) => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
             OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
-            _ => {
-                if cxt.config.enum_impl_std_trait
-                    && cxt.is_enum_type(declaration.type_specifier().unwrap())
+            _ => match declaration {
+                Declaration::Variable(ty, _)
+                    if cxt.config.enum_impl_std_trait && cxt.is_enum_type(ty.clone()) =>
                 {
                     quote! { #[serde(with = "serde_xdr::primitive::signed32")] }
-                } else {
-                    quote! {}
                 }
-            }
+                _ => quote! {},
+            },
         };
 
         let field_name_ident = snake_case_ident(&field_name);
-- 
2.43.0


From a8ce744cdc0587e2af6c54eedecd38a7b1f92413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 24/29] fix: box members of types which contain themselves

Only a structure naming itself in its own member was boxed, and one
reached through a typedef, another structure or a union did not compile.
---
 rpcgen/src/gen_code.rs | 52 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 689b807..cf0f4c7 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -72,6 +72,37 @@ impl Context {
         Err(Error::NotFountIdentifier(name.to_string()))
     }
 
+    // Whether a value of the declaration holds a value of the named type without indirection.
+    fn contains(&self, declaration: &Declaration, name: &str, visited: &mut Vec<String>) -> bool {
+        let id = match declaration {
+            Declaration::Variable(TypeSpecifier::Identifier(id), _)
+            | Declaration::FixedArray(TypeSpecifier::Identifier(id), _, _)
+            | Declaration::OptionVariable(TypeSpecifier::Identifier(id), _) => id,
+            _ => return false,
+        };
+
+        if id == name {
+            return true;
+        }
+
+        if visited.contains(id) {
+            return false;
+        }
+
+        visited.push(id.to_string());
+        match self.typedefs.iter().find(|(n, _)| n == id) {
+            Some((_, TypeDef::Declaration(d))) => self.contains(d, name, visited),
+            Some((_, TypeDef::Struct(_, ds))) => ds.iter().any(|d| self.contains(d, name, visited)),
+            Some((_, TypeDef::Union(_, body))) => body
+                .specs
+                .iter()
+                .map(|s| &s.declaration)
+                .chain(&body.default)
+                .any(|d| self.contains(d, name, visited)),
+            _ => false,
+        }
+    }
+
     // Follow the names of typedefs to the type which they stand for.
     fn resolve_type(&self, ty: &TypeSpecifier) -> TypeSpecifier {
         if let TypeSpecifier::Identifier(name) = ty {
@@ -526,8 +557,9 @@ fn convert_struct_token(
 
         let field_name_ident = snake_case_ident(&field_name);
 
-        if struct_type == declaration.type_specifier() {
-            // TODO: Add nested structure support.
+        if struct_type == declaration.type_specifier()
+            || cxt.contains(declaration, name, &mut vec![])
+        {
             ty = quote! { Box<#ty> };
         }
 
@@ -590,7 +622,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 }
 
                 let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(value_token, &decl, cond_type, cxt)?;
+                    convert_case_token(name, value_token, &decl, cond_type, cxt)?;
                 specs.push(value);
                 if default_value.is_none() {
                     default_value = Some(default);
@@ -642,7 +674,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
 
                     let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                        convert_case_token(name, value, &case.declaration, cond_type, cxt)?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -678,7 +710,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
 
                     let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                        convert_case_token(name, value, &case.declaration, cond_type, cxt)?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -712,7 +744,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
 
     if let Some(default) = &body.default {
         if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
-            let v_ty = opaque.wrap(v_ty);
+            let mut v_ty = opaque.wrap(v_ty);
+            if cxt.contains(default, name, &mut vec![]) {
+                v_ty = quote! { Box<#v_ty> };
+            }
             if cxt.config.union_impl_union {
                 specs.push(quote! {
                     Default(#xdr_union_cond_type, #v_ty)
@@ -913,6 +948,7 @@ fn convert_primitive_token(
 }
 
 fn convert_case_token(
+    name: &str,
     value: &Value,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
@@ -946,6 +982,10 @@ fn convert_case_token(
 
     let decl = convert_type_token(declaration, cxt)?;
     if let Some((mut v_ty, opaque)) = decl {
+        if cxt.contains(declaration, name, &mut vec![]) {
+            v_ty = quote! { Box<#v_ty> };
+        }
+
         let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
             // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
             v_ty = opaque.wrap(v_ty);
-- 
2.43.0


From e57e99237d0e0d9e89f4d8079186927f41a7e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 25/29] fix: accept a specification of nothing but white space
 and comments

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 0a3936c..7add7b6 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -607,7 +607,7 @@ fn octal(input: &str) -> IResult<&str, Constant> {
 }
 
 fn specification(input: &str) -> IResult<&str, Vec<Definition>> {
-    many0(delimited(comment0, definition, comment0)).parse(input)
+    preceded(comment0, many0(terminated(definition, comment0))).parse(input)
 }
 
 fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
-- 
2.43.0


From 216a3ae1cd6a43c0eca0f4f0614c3655eda597b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 26/29] fix: do not look for an enumerator when a constant of
 the name does not fit

---
 rpcgen/src/gen_code.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index cf0f4c7..7791eb1 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -150,8 +150,11 @@ impl Context {
     where
         T: TryFrom<&'a Constant>,
     {
-        self.resolve_const_value::<T>(name)
-            .or_else(|_| self.resolve_enum_value::<T>(name))
+        if self.constants.iter().any(|(n, _)| n == name) {
+            return self.resolve_const_value::<T>(name);
+        }
+
+        self.resolve_enum_value::<T>(name)
     }
 
     fn check_circular(&self) -> Result<(), Error> {
-- 
2.43.0


From d15d1feb24927c01a1d4b753f22077842e3254f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 27/29] fix: opaque data in a struct named u8 is not boxed

---
 rpcgen/src/gen_code.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 7791eb1..21ea1c5 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -560,9 +560,14 @@ fn convert_struct_token(
 
         let field_name_ident = snake_case_ident(&field_name);
 
-        if struct_type == declaration.type_specifier()
-            || cxt.contains(declaration, name, &mut vec![])
-        {
+        let same_type = match declaration {
+            // The internal name of the elements may be the name of a type as well.
+            Declaration::OpaqueFixedArray(..)
+            | Declaration::OpaqueVariableArray(..)
+            | Declaration::String(..) => false,
+            _ => struct_type == declaration.type_specifier(),
+        };
+        if same_type || cxt.contains(declaration, name, &mut vec![]) {
             ty = quote! { Box<#ty> };
         }
 
-- 
2.43.0


From 19ad2fa90b7e2b22c70d6e8fa3b1437f9a6eaafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 28/29] fix: the default value of a union is one of its values

---
 rpcgen/src/gen_code.rs | 109 +++++++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 37 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 21ea1c5..8e465af 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -74,10 +74,25 @@ impl Context {
 
     // Whether a value of the declaration holds a value of the named type without indirection.
     fn contains(&self, declaration: &Declaration, name: &str, visited: &mut Vec<String>) -> bool {
+        self.holds(declaration, name, true, visited)
+    }
+
+    // Whether every value of the declaration needs a value of the named type.
+    fn needs(&self, declaration: &Declaration, name: &str) -> bool {
+        self.holds(declaration, name, false, &mut vec![])
+    }
+
+    fn holds(
+        &self,
+        declaration: &Declaration,
+        name: &str,
+        optional: bool,
+        visited: &mut Vec<String>,
+    ) -> bool {
         let id = match declaration {
             Declaration::Variable(TypeSpecifier::Identifier(id), _)
-            | Declaration::FixedArray(TypeSpecifier::Identifier(id), _, _)
-            | Declaration::OptionVariable(TypeSpecifier::Identifier(id), _) => id,
+            | Declaration::FixedArray(TypeSpecifier::Identifier(id), _, _) => id,
+            Declaration::OptionVariable(TypeSpecifier::Identifier(id), _) if optional => id,
             _ => return false,
         };
 
@@ -91,14 +106,16 @@ impl Context {
 
         visited.push(id.to_string());
         match self.typedefs.iter().find(|(n, _)| n == id) {
-            Some((_, TypeDef::Declaration(d))) => self.contains(d, name, visited),
-            Some((_, TypeDef::Struct(_, ds))) => ds.iter().any(|d| self.contains(d, name, visited)),
+            Some((_, TypeDef::Declaration(d))) => self.holds(d, name, optional, visited),
+            Some((_, TypeDef::Struct(_, ds))) => {
+                ds.iter().any(|d| self.holds(d, name, optional, visited))
+            }
             Some((_, TypeDef::Union(_, body))) => body
                 .specs
                 .iter()
                 .map(|s| &s.declaration)
                 .chain(&body.default)
-                .any(|d| self.contains(d, name, visited)),
+                .any(|d| self.holds(d, name, optional, visited)),
             _ => false,
         }
     }
@@ -232,6 +249,22 @@ impl OpaqueType {
     }
 }
 
+// The default value of a union: the first one which can be made.
+#[derive(Default)]
+struct DefaultValue {
+    value: Option<TokenStream>,
+    finite: bool,
+}
+
+impl DefaultValue {
+    fn consider(&mut self, value: TokenStream, finite: bool) {
+        if self.value.is_none() || (finite && !self.finite) {
+            self.value = Some(value);
+            self.finite = finite;
+        }
+    }
+}
+
 pub fn gen_code(definitions: Vec<Definition>, config: &Config) -> Result<String, Error> {
     let mut cxt = Context::new(config);
     setup_context(&definitions, &mut cxt)?;
@@ -592,7 +625,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let mut xdr_indexer_index = vec![];
     let mut xdr_union_name_by_value = vec![];
     let mut xdr_union_cond_type = None;
-    let mut default_value = None;
+    let mut default_value = DefaultValue::default();
     let name_ident = upper_camel_case_ident(name);
 
     let cond_type = match &body.cond {
@@ -629,17 +662,24 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     }
                 }
 
-                let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(name, value_token, &decl, cond_type, cxt)?;
-                specs.push(value);
-                if default_value.is_none() {
-                    default_value = Some(default);
-                }
-
                 let index = match cond_type {
                     TypeSpecifier::Int(false) => eindex as i32,
                     _ => i32::try_from(eindex).map_err(|_| Error::NotSupported)?,
                 };
+                let label = match cond_type {
+                    TypeSpecifier::Identifier(name) if cxt.config.union_impl_union => {
+                        let cond_type_ident = upper_camel_case_ident(name);
+                        let value_ident = upper_camel_case_ident(cxt.enum_item(name, index)?);
+                        quote! { #cond_type_ident::#value_ident }
+                    }
+                    _ => Literal::u32_unsuffixed(eindex).into_token_stream(),
+                };
+
+                let (variant, variant_arm, value, default, tmp_type) =
+                    convert_case_token(name, value_token, &label, &decl, cond_type, cxt)?;
+                specs.push(value);
+                default_value.consider(default, !cxt.needs(&decl, name));
+
                 xdr_indexer_name_by_index.push(quote! {
                     #index => Ok(stringify!(#variant))
                 });
@@ -649,16 +689,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 });
 
                 if cxt.config.union_impl_union {
-                    let pattern = match cond_type {
-                        TypeSpecifier::Identifier(name) => {
-                            let cond_type_ident = upper_camel_case_ident(name);
-                            let value_ident = upper_camel_case_ident(cxt.enum_item(name, index)?);
-                            quote! { #cond_type_ident::#value_ident }
-                        }
-                        _ => Literal::u32_unsuffixed(eindex).into_token_stream(),
-                    };
                     xdr_union_name_by_value.push(quote! {
-                        #pattern => Ok(stringify!(#variant))
+                        #label => Ok(stringify!(#variant))
                     });
                 }
 
@@ -680,13 +712,12 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             match false_case {
                 Some(case) => {
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
+                    let label = quote! { false };
 
                     let (variant, variant_arm, value, default, _) =
-                        convert_case_token(name, value, &case.declaration, cond_type, cxt)?;
+                        convert_case_token(name, value, &label, &case.declaration, cond_type, cxt)?;
                     specs.push(value);
-                    if default_value.is_none() {
-                        default_value = Some(default);
-                    }
+                    default_value.consider(default, !cxt.needs(&case.declaration, name));
 
                     xdr_indexer_name_by_index.push(quote! {
                         0i32 => Ok(stringify!(#variant))
@@ -716,13 +747,12 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             match true_case {
                 Some(case) => {
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
+                    let label = quote! { true };
 
                     let (variant, variant_arm, value, default, _) =
-                        convert_case_token(name, value, &case.declaration, cond_type, cxt)?;
+                        convert_case_token(name, value, &label, &case.declaration, cond_type, cxt)?;
                     specs.push(value);
-                    if default_value.is_none() {
-                        default_value = Some(default);
-                    }
+                    default_value.consider(default, !cxt.needs(&case.declaration, name));
 
                     xdr_indexer_name_by_index.push(quote! {
                         1i32 => Ok(stringify!(#variant))
@@ -753,6 +783,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     if let Some(default) = &body.default {
         if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
             let mut v_ty = opaque.wrap(v_ty);
+            let finite = !cxt.needs(default, name);
             if cxt.contains(default, name, &mut vec![]) {
                 v_ty = quote! { Box<#v_ty> };
             }
@@ -761,26 +792,29 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default(), Default::default()) });
+                default_value.consider(
+                    quote! { Default(Default::default(), Default::default()) },
+                    finite,
+                );
             } else {
                 specs.push(quote! {
                     Default(#v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default()) });
+                default_value.consider(quote! { Default(Default::default()) }, finite);
             }
         } else if cxt.config.union_impl_union {
             specs.push(quote! {
                 Default(#xdr_union_cond_type)
             });
 
-            default_value = Some(quote! { Default(Default::default()) });
+            default_value.consider(quote! { Default(Default::default()) }, true);
         } else {
             specs.push(quote! {
                 Default
             });
 
-            default_value = Some(quote! { Default });
+            default_value.consider(quote! { Default }, true);
         }
     }
 
@@ -854,7 +888,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.value.unwrap();
     Ok(quote! {
         #derive
         pub enum #name_ident {
@@ -958,6 +992,7 @@ fn convert_primitive_token(
 fn convert_case_token(
     name: &str,
     value: &Value,
+    label: &TokenStream,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
     cxt: &Context,
@@ -1019,7 +1054,7 @@ fn convert_case_token(
         };
 
         let default_token = if cxt.config.union_impl_union {
-            quote! { #value(Default::default(), Default::default()) }
+            quote! { #value(#label, Default::default()) }
         } else {
             quote! { #value(Default::default()) }
         };
@@ -1033,7 +1068,7 @@ fn convert_case_token(
         ))
     } else if cxt.config.union_impl_union {
         let value_token = quote! { #value(#cond_type) };
-        let default_token = quote! { #value(Default::default()) };
+        let default_token = quote! { #value(#label) };
         Ok((value.clone(), value, value_token, default_token, cond_type))
     } else {
         let value_token = quote! { #value };
-- 
2.43.0


From 3bb97b177bfd0097090ab85725f2383e8c9e9910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 29/29] fix: parse the type of a declaration once

---
 rpcgen/src/parser.rs | 58 +++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 7add7b6..6c0b28d 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -521,33 +521,7 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
             ),
             |(i, v)| Declaration::string(i, v),
         ),
-        map(
-            (
-                type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("["), value, tag("]")),
-            ),
-            |(t, i, v)| Declaration::fixed_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("<"), opt(value), tag(">")),
-            ),
-            |(t, i, v)| Declaration::variable_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded((multispace0, tag("*"), multispace0), identifier),
-            ),
-            |(t, i)| Declaration::option_variable(t, i),
-        ),
-        map(
-            (type_specifier, preceded(multispace1, identifier)),
-            |(t, i)| Declaration::variable(t, i),
-        ),
+        typed_declaration,
     ))
     .parse(input)
 }
@@ -732,6 +706,36 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     .parse(input)
 }
 
+fn typed_declaration(input: &str) -> IResult<&str, Declaration> {
+    // The type is parsed once, it may contain other declarations.
+    let (rest, t) = type_specifier(input)?;
+
+    alt((
+        map(
+            (
+                preceded(multispace1, identifier),
+                delimited(tag("["), value, tag("]")),
+            ),
+            |(i, v)| Declaration::fixed_array(t.clone(), i, v),
+        ),
+        map(
+            (
+                preceded(multispace1, identifier),
+                delimited(tag("<"), opt(value), tag(">")),
+            ),
+            |(i, v)| Declaration::variable_array(t.clone(), i, v),
+        ),
+        map(
+            preceded((multispace0, tag("*"), multispace0), identifier),
+            |i| Declaration::option_variable(t.clone(), i),
+        ),
+        map(preceded(multispace1, identifier), |i| {
+            Declaration::variable(t.clone(), i)
+        }),
+    ))
+    .parse(rest)
+}
+
 fn union_body(input: &str) -> IResult<&str, UnionBody> {
     map(
         (
-- 
2.43.0

