From 38f444952ca707276571a78fc51b4d96bc26d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 01/39] fix: report missing padding of a string or opaque
 instead of panicking

---
 serde-xdr/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index 8f748f2..b4a8f71 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -88,7 +88,7 @@ impl<'de> Deserializer<'de> {
         let v = self.read(size)?;
         let v = str::from_utf8(v)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
@@ -99,7 +99,7 @@ impl<'de> Deserializer<'de> {
 
         let v = self.read(size)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
-- 
2.43.0


From 8eb8e71ac3bdf7c8aa6a45480a039a9330bd5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 02/39] fix: do not allocate the announced size of an opaque
 before its data is read

---
 serde-xdr/src/opaque.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index b2bf25c..a86c21d 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -69,21 +69,17 @@ where
 {
     let size = seq.size_hint().unwrap();
 
-    let mut bytes = vec![0u8; size];
+    // The size comes from the peer, so that allocate memory as data arrives.
+    let mut bytes = vec![];
     let padded_len = size.div_ceil(4);
 
-    let mut idx = 0;
     for _ in 0..padded_len {
         if let Some(v) = seq.next_element::<u32>()? {
-            for b in v.to_be_bytes() {
-                if idx < size {
-                    bytes[idx] = b;
-                    idx += 1;
-                }
-            }
+            bytes.extend_from_slice(&v.to_be_bytes());
         }
     }
 
+    bytes.resize(size, 0);
     Ok(bytes)
 }
 
-- 
2.43.0


From ba47f05440706be9182348237a1a8a4a35f1ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 03/39] fix: reject an integer out of range instead of
 truncating it

---
 serde-xdr/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index b4a8f71..fd74a0c 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -126,14 +126,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i8(self.read_i32()? as i8)
+        visitor.visit_i8(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i16(self.read_i32()? as i16)
+        visitor.visit_i16(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -154,14 +154,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u8(self.read_u32()? as u8)
+        visitor.visit_u8(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u16(self.read_u32()? as u16)
+        visitor.visit_u16(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From a3de0a87bc16b9c9f886968d6272231c42815388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 04/39] fix: reject a boolean or an optional flag other than 0
 and 1

---
 serde-xdr/src/de.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index fd74a0c..09b4930 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -76,6 +76,14 @@ impl<'de> Deserializer<'de> {
         Ok(f64::from_be_bytes(v.try_into()?))
     }
 
+    fn read_bool(&mut self) -> Result<bool, Error> {
+        match self.read_u32()? {
+            0 => Ok(false),
+            1 => Ok(true),
+            _ => Err(Error::Convert),
+        }
+    }
+
     fn read_char(&mut self) -> Result<char, Error> {
         let code = self.read_u32()?;
         char::from_u32(code).ok_or(Error::Convert)
@@ -119,7 +127,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_bool(self.read_u32()? != 0)
+        visitor.visit_bool(self.read_bool()?)
     }
 
     fn deserialize_i8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -231,10 +239,10 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        if self.read_u32()? == 0 {
-            visitor.visit_none()
-        } else {
+        if self.read_bool()? {
             visitor.visit_some(self)
+        } else {
+            visitor.visit_none()
         }
     }
 
-- 
2.43.0


From 9a01b42f812bc577688f6958791ce3f93f03d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 05/39] fix: reject a length over 32 bits instead of truncating
 it

---
 serde-xdr/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde-xdr/src/ser.rs b/serde-xdr/src/ser.rs
index 81a5946..54818bf 100644
--- a/serde-xdr/src/ser.rs
+++ b/serde-xdr/src/ser.rs
@@ -89,7 +89,7 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
         let size = v.len();
         let padding_size = 4 - size % 4;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         self.output.extend_from_slice(v);
         if padding_size < 4 {
             let mut padding = vec![0u8; padding_size];
@@ -155,7 +155,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
@@ -184,7 +184,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
-- 
2.43.0


From 26bbc5d0291aa2c42b640dfac00f531478044063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:56 +0000
Subject: [PATCH 06/39] fix: decode a derived variant with ten or more fields
 instead of panicking

---
 serde-xdr-derive/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 360cc0c..e9a6161 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -57,6 +57,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
     }
 
+    let max_elements = max_fields(&ast) + 1;
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
             fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -105,7 +106,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrIndexerVisitor)
+                deserializer.deserialize_tuple(#max_elements, XdrIndexerVisitor)
             }
         }
     };
@@ -183,6 +184,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     }
 
     let value_ty = value_ty.unwrap();
+    let max_elements = max_fields(&ast);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
             fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -228,10 +230,18 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrUnionVisitor)
+                deserializer.deserialize_tuple(#max_elements, XdrUnionVisitor)
             }
         }
     };
 
     serde_ast.into()
 }
+
+fn max_fields(ast: &ItemEnum) -> usize {
+    ast.variants
+        .iter()
+        .map(|v| v.fields.len())
+        .max()
+        .unwrap_or(0)
+}
-- 
2.43.0


From 6490b09ae1707306ba4edc630425bd1300cc6022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 07/39] fix: parse a type name that starts with void

---
 rpcgen/src/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b178a94..f5257b0 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, opt, peek, recognize, verify},
+    combinator::{map, not, opt, peek, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -499,7 +499,7 @@ fn decimal_nonzero(input: &str) -> IResult<&str, Constant> {
 fn declaration(input: &str) -> IResult<&str, Declaration> {
     // 優先度順に並べる。
     alt((
-        map(tag("void"), |_| Declaration::void()),
+        map(void, |_| Declaration::void()),
         map(
             (
                 preceded((tag("opaque"), multispace1), identifier),
@@ -775,6 +775,14 @@ fn value(input: &str) -> IResult<&str, Value> {
     .parse(input)
 }
 
+fn void(input: &str) -> IResult<&str, &str> {
+    terminated(tag("void"), not(one_of_identifier)).parse(input)
+}
+
+fn one_of_identifier(input: &str) -> IResult<&str, &str> {
+    alt((alphanumeric1, tag("_"))).parse(input)
+}
+
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
@@ -811,13 +819,13 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
     map(
         (
             terminated(
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
+                alt((type_specifier, map(void, |_| TypeSpecifier::Void))),
                 multispace1,
             ),
             identifier,
             delimited(
                 (multispace0, tag("("), multispace0),
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
+                alt((type_specifier, map(void, |_| TypeSpecifier::Void))),
                 (multispace0, tag(")"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
-- 
2.43.0


From 1334cd462d4b7cc930af792af881097e468c4f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 08/39] fix: parse a file that has only comments or white space

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index f5257b0..a5bbeb2 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -607,7 +607,7 @@ fn octal(input: &str) -> IResult<&str, Constant> {
 }
 
 fn specification(input: &str) -> IResult<&str, Vec<Definition>> {
-    many0(delimited(comment0, definition, comment0)).parse(input)
+    preceded(comment0, many0(terminated(definition, comment0))).parse(input)
 }
 
 fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
-- 
2.43.0


From d184c36c34a6045e79fa9a3d773881a3ea7ff4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 09/39] fix: parse a nested type once instead of once per kind
 of declaration

---
 rpcgen/src/parser.rs | 58 +++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index a5bbeb2..402e087 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -521,33 +521,7 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
             ),
             |(i, v)| Declaration::string(i, v),
         ),
-        map(
-            (
-                type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("["), value, tag("]")),
-            ),
-            |(t, i, v)| Declaration::fixed_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("<"), opt(value), tag(">")),
-            ),
-            |(t, i, v)| Declaration::variable_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded((multispace0, tag("*"), multispace0), identifier),
-            ),
-            |(t, i)| Declaration::option_variable(t, i),
-        ),
-        map(
-            (type_specifier, preceded(multispace1, identifier)),
-            |(t, i)| Declaration::variable(t, i),
-        ),
+        typed_declaration,
     ))
     .parse(input)
 }
@@ -736,6 +710,36 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     .parse(input)
 }
 
+fn typed_declaration(input: &str) -> IResult<&str, Declaration> {
+    // 型は入れ子になるため一度だけ解析する。
+    let (rest, ty) = type_specifier(input)?;
+
+    alt((
+        map(
+            (
+                preceded(multispace1, identifier),
+                delimited(tag("["), value, tag("]")),
+            ),
+            |(i, v)| Declaration::fixed_array(ty.clone(), i, v),
+        ),
+        map(
+            (
+                preceded(multispace1, identifier),
+                delimited(tag("<"), opt(value), tag(">")),
+            ),
+            |(i, v)| Declaration::variable_array(ty.clone(), i, v),
+        ),
+        map(
+            preceded((multispace0, tag("*"), multispace0), identifier),
+            |i| Declaration::option_variable(ty.clone(), i),
+        ),
+        map(preceded(multispace1, identifier), |i| {
+            Declaration::variable(ty.clone(), i)
+        }),
+    ))
+    .parse(rest)
+}
+
 fn union_body(input: &str) -> IResult<&str, UnionBody> {
     map(
         (
-- 
2.43.0


From 5787f3d471a104ca7e9557ef04842c1da323226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:52 +0000
Subject: [PATCH 10/39] fix: parse a built-in type that is not followed by
 white space

---
 rpcgen/src/parser.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 402e087..d810443 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, not, opt, peek, recognize, verify},
+    combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -645,22 +645,22 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("int"), peek(multispace1)),
+                terminated(tag("int"), not(one_of_identifier)),
             ),
             |_| TypeSpecifier::Int(false),
         ),
-        map(terminated(tag("int"), peek(multispace1)), |_| {
+        map(terminated(tag("int"), not(one_of_identifier)), |_| {
             TypeSpecifier::Int(true)
         }),
         map(
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("hyper"), peek(multispace1)),
+                terminated(tag("hyper"), not(one_of_identifier)),
             ),
             |_| TypeSpecifier::Hyper(false),
         ),
-        map(terminated(tag("hyper"), peek(multispace1)), |_| {
+        map(terminated(tag("hyper"), not(one_of_identifier)), |_| {
             TypeSpecifier::Hyper(true)
         }),
         // start (libvirt extenstion)
@@ -668,38 +668,38 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("char"), peek(multispace1)),
+                terminated(tag("char"), not(one_of_identifier)),
             ),
             |_| TypeSpecifier::Char(false),
         ),
-        map(terminated(tag("char"), peek(multispace1)), |_| {
+        map(terminated(tag("char"), not(one_of_identifier)), |_| {
             TypeSpecifier::Char(true)
         }),
         map(
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("short"), peek(multispace1)),
+                terminated(tag("short"), not(one_of_identifier)),
             ),
             |_| TypeSpecifier::Short(false),
         ),
-        map(terminated(tag("short"), peek(multispace1)), |_| {
+        map(terminated(tag("short"), not(one_of_identifier)), |_| {
             TypeSpecifier::Short(true)
         }),
-        map(terminated(tag("unsigned"), peek(multispace1)), |_| {
+        map(terminated(tag("unsigned"), not(one_of_identifier)), |_| {
             TypeSpecifier::Int(false)
         }),
         // end (libvirt extenstion)
-        map(terminated(tag("float"), peek(multispace1)), |_| {
+        map(terminated(tag("float"), not(one_of_identifier)), |_| {
             TypeSpecifier::Float
         }),
-        map(terminated(tag("double"), peek(multispace1)), |_| {
+        map(terminated(tag("double"), not(one_of_identifier)), |_| {
             TypeSpecifier::Double
         }),
-        map(terminated(tag("quadruple"), peek(multispace1)), |_| {
+        map(terminated(tag("quadruple"), not(one_of_identifier)), |_| {
             TypeSpecifier::Quadruple
         }),
-        map(terminated(tag("bool"), peek(multispace1)), |_| {
+        map(terminated(tag("bool"), not(one_of_identifier)), |_| {
             TypeSpecifier::Bool
         }),
         map(enum_type_spec, TypeSpecifier::enum_type),
-- 
2.43.0


From 21225225b1fe2e04c8418334b2da12d9732ea436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 11/39] fix: report a void member of a struct instead of
 panicking

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c518714..cadbca1 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -384,7 +384,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().unwrap().to_string();
+        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
-- 
2.43.0


From 1c0c66b10943f342228e582cc0e49095fad0ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 12/39] fix: report a bool union without TRUE and FALSE instead
 of panicking

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index cadbca1..92ddde9 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -679,7 +679,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
-- 
2.43.0


From 5d06894fc1d8e1626cf05efe01500601c6b90b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 13/39] fix: do not overflow on the largest enum or union value

---
 rpcgen/src/gen_code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 92ddde9..088a1bb 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -285,7 +285,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             default_value = Some(quote! { #item_ident });
         }
 
-        start = end + 1;
+        start = end.saturating_add(1);
     }
 
     let as_ref = if cxt.config.enum_impl_std_trait {
@@ -497,7 +497,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
 
-                sindex = eindex + 1;
+                sindex = eindex.saturating_add(1);
 
                 xdr_union_cond_type = Some(tmp_type);
             }
-- 
2.43.0


From db54dcbb34936d8e86dde249b1e3fc9fa94922f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 14/39] fix: generate a valid array length from a constant

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 088a1bb..1607784 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -730,7 +730,7 @@ fn convert_type_token(
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
             let len = convert_value_token::<usize>(value, false)?;
-            Ok(Some((quote! { [#ty; #len] }, opaque)))
+            Ok(Some((quote! { [#ty; #len as usize] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-- 
2.43.0


From 13c9bd11e1496921b90fefcf367dc23025fdb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 15/39] fix: generate an exhaustive match for a bool union that
 lacks TRUE or FALSE

---
 rpcgen/src/gen_code.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 1607784..95b6c6a 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -647,10 +647,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     };
 
     let xdr_union = if cxt.config.union_impl_union {
-        let xdr_union_name_by_value_default_arm = if cond_type == &TypeSpecifier::Bool {
-            quote! {}
-        } else if body.default.is_some() {
+        let xdr_union_name_by_value_default_arm = if body.default.is_some() {
             quote! { _ => Ok(stringify!(Default)), }
+        } else if cond_type == &TypeSpecifier::Bool && xdr_union_name_by_value.len() == 2 {
+            quote! {}
         } else {
             quote! { _ => Err(::serde_xdr::error::Error::Convert), }
         };
-- 
2.43.0


From c100fd8ee4c7abf7038fc5cdd0377fa932b549ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 16/39] fix: report a union or an enum without any value
 instead of panicking

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 95b6c6a..af5523f 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -353,7 +353,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         #[repr(i32)]
-- 
2.43.0


From d1ab82e8ab636bc9102219306b68e71289c563af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 17/39] fix: generate a valid identifier from any name instead
 of panicking

---
 rpcgen/src/gen_code.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index af5523f..0ca2359 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -184,7 +184,7 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
     let mut results = vec![];
 
     for (name, value) in &cxt.constants {
-        let name_ident = format_ident!("{}", name);
+        let name_ident = valid_ident(name);
         let (value_token, ty) = match convert_value_token::<u32>(value, false) {
             Ok(v) => Ok((v, quote! { u32 })),
             Err(_) => match convert_value_token::<u64>(value, false) {
@@ -384,7 +384,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
+        let field_name = declaration.name().ok_or(Error::NotSupported)?;
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -401,11 +401,7 @@ fn convert_struct_token(
             }
         };
 
-        if keyword::rust_reserved(&field_name) {
-            field_name = format!("r#{field_name}");
-        }
-
-        let field_name_ident = snake_case_ident(&field_name);
+        let field_name_ident = snake_case_ident(field_name);
 
         if struct_type == declaration.type_specifier() {
             // TODO: Add nested structure support.
@@ -711,7 +707,7 @@ where
             let v = if cnv {
                 upper_camel_case_ident(i)
             } else {
-                format_ident!("{}", i)
+                valid_ident(i)
             };
             Ok(quote! { #v })
         }
@@ -917,7 +913,7 @@ fn upper_camel_case(value: &str) -> String {
 }
 
 fn upper_camel_case_ident(value: &str) -> Ident {
-    format_ident!("{}", upper_camel_case(value))
+    valid_ident(&upper_camel_case(value))
 }
 
 fn capitalize(value: &str) -> String {
@@ -970,7 +966,18 @@ fn snake_case(value: &str) -> String {
 }
 
 fn snake_case_ident(value: &str) -> Ident {
-    format_ident!("{}", snake_case(value))
+    valid_ident(&snake_case(value))
+}
+
+fn valid_ident(value: &str) -> Ident {
+    match value {
+        "" | "_" => format_ident!("__"),
+        // raw identifier にできない。
+        "Self" | "crate" | "self" | "super" => format_ident!("{}_", value),
+        _ if value.starts_with(|c: char| c.is_ascii_digit()) => format_ident!("_{}", value),
+        _ if keyword::rust_reserved(value) => format_ident!("r#{}", value),
+        _ => format_ident!("{}", value),
+    }
 }
 
 fn with_underscore(value: &str) -> String {
-- 
2.43.0


From e31a389c100457712ad71fe6973b56e071af05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 18/39] fix: report a circular constant or typedef instead of
 overflowing the stack

---
 rpcgen/src/gen_code.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 0ca2359..a7b1b89 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -5,6 +5,7 @@ use crate::parser::{
 };
 use proc_macro2::{Ident, TokenStream};
 use quote::{ToTokens, format_ident, quote};
+use std::cell::RefCell;
 use std::convert::TryFrom;
 
 #[derive(Clone, Default)]
@@ -30,6 +31,7 @@ struct Context {
     config: Config,
     constants: Vec<(String, Value)>,
     typedefs: Vec<(String, TypeDef)>,
+    resolving: RefCell<Vec<String>>,
 }
 
 impl Context {
@@ -38,9 +40,26 @@ impl Context {
             config: config.clone(),
             constants: vec![],
             typedefs: vec![],
+            resolving: RefCell::new(vec![]),
         }
     }
 
+    // 循環参照をエラーにする。
+    fn resolve_once<R>(
+        &self,
+        name: &str,
+        resolve: impl FnOnce() -> Result<R, Error>,
+    ) -> Result<R, Error> {
+        if self.resolving.borrow().iter().any(|n| n == name) {
+            return Err(Error::NotSupported);
+        }
+
+        self.resolving.borrow_mut().push(name.to_string());
+        let ret = resolve();
+        self.resolving.borrow_mut().pop();
+        ret
+    }
+
     pub fn is_enum_type(&self, ty: TypeSpecifier) -> bool {
         if let TypeSpecifier::Identifier(name) = ty {
             return self.typedefs.iter().any(|(_, def)| match def {
@@ -87,8 +106,10 @@ impl Context {
     where
         T: TryFrom<&'a Constant>,
     {
-        self.resolve_const_value::<T>(name)
-            .or_else(|_| self.resolve_enum_value::<T>(name))
+        self.resolve_once(name, || {
+            self.resolve_const_value::<T>(name)
+                .or_else(|_| self.resolve_enum_value::<T>(name))
+        })
     }
 
     fn resolve_value<'a, T>(&'a self, value: &'a Value) -> Result<T, Error>
@@ -882,7 +903,9 @@ fn resolve_type_token(value: &str, cxt: &Context) -> Result<(TokenStream, Opaque
 
     let typedef = cxt.typedefs.iter().find(|(name, _)| name == value);
     if let Some((_, TypeDef::Declaration(declaration))) = typedef {
-        let (value, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
+        let (value, opaque) = cxt
+            .resolve_once(value, || convert_type_token(declaration, cxt))?
+            .ok_or(Error::NotSupported)?;
 
         return Ok((quote! { #value }, opaque));
     }
-- 
2.43.0


From cd3923f66da97ca1d026a878dea348759b9bbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 19/39] fix: generate a constant that refers to a wide constant
 or an enum value

---
 rpcgen/src/gen_code.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a7b1b89..86d2791 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -206,13 +206,13 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
 
     for (name, value) in &cxt.constants {
         let name_ident = valid_ident(name);
-        let (value_token, ty) = match convert_value_token::<u32>(value, false) {
-            Ok(v) => Ok((v, quote! { u32 })),
-            Err(_) => match convert_value_token::<u64>(value, false) {
-                Ok(v) => Ok((v, quote! { u64 })),
-                Err(e) => Err(e),
-            },
-        }?;
+        let (value_token, ty) = match cxt.resolve_value::<u32>(value) {
+            Ok(v) => (quote! { #v }, quote! { u32 }),
+            Err(_) => {
+                let v = cxt.resolve_value::<u64>(value)?;
+                (quote! { #v }, quote! { u64 })
+            }
+        };
         results.push(quote! {
             pub const #name_ident: #ty = #value_token;
         });
-- 
2.43.0


From ce19656923dcfd0e53a288bb9c9e5ce149a11afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 20/39] fix: generate valid code for a union that has numeric
 case labels

---
 rpcgen/src/gen_code.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 86d2791..59798d2 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -3,10 +3,11 @@ use crate::keyword;
 use crate::parser::{
     Assign, Constant, Declaration, Definition, TypeDef, TypeSpecifier, UnionBody, Value,
 };
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Literal, TokenStream};
 use quote::{ToTokens, format_ident, quote};
 use std::cell::RefCell;
 use std::convert::TryFrom;
+use std::fmt::Display;
 
 #[derive(Clone, Default)]
 pub struct Config {
@@ -509,6 +510,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                         }
                     }
                 } else {
+                    let eindex = Literal::u32_unsuffixed(eindex);
                     xdr_union_name_by_value.push(quote! {
                         #eindex => Ok(stringify!(#variant))
                     });
@@ -717,11 +719,16 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
 
 fn convert_value_token<'a, T>(value: &'a Value, cnv: bool) -> Result<TokenStream, Error>
 where
-    T: TryFrom<&'a Constant> + ToTokens,
+    T: TryFrom<&'a Constant> + ToTokens + Display,
 {
     match value {
         Value::Constant(c) => {
             let v = c.value::<T>()?;
+            if cnv {
+                let v = format_ident!("Case{}", v.to_string());
+                return Ok(quote! { #v });
+            }
+
             Ok(quote! { #v })
         }
         Value::Identifier(i) => {
-- 
2.43.0


From cf4a0656d4876aaa9689aed9eb8a3eee2914f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 21/39] fix: treat an alias of an enum as the enum

---
 rpcgen/src/gen_code.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 59798d2..2dc5277 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -63,8 +63,11 @@ impl Context {
 
     pub fn is_enum_type(&self, ty: TypeSpecifier) -> bool {
         if let TypeSpecifier::Identifier(name) = ty {
-            return self.typedefs.iter().any(|(_, def)| match def {
+            return self.typedefs.iter().any(|(n, def)| match def {
                 TypeDef::Enum(identifier, _) => &name == identifier,
+                TypeDef::Declaration(Declaration::Variable(alias, _)) if &name == n => self
+                    .resolve_once(n, || Ok(self.is_enum_type(alias.clone())))
+                    .unwrap_or(false),
                 _ => false,
             });
         }
@@ -500,14 +503,11 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 });
 
                 if cxt.is_enum_type(cond_type.clone()) {
-                    if let TypeSpecifier::Identifier(cond_type) = cond_type {
-                        let cond_type_ident = upper_camel_case_ident(cond_type);
-                        if let Value::Identifier(value) = value_token {
-                            let value_ident = upper_camel_case_ident(value);
-                            xdr_union_name_by_value.push(quote! {
-                                #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                            });
-                        }
+                    if let Value::Identifier(value) = value_token {
+                        let value_ident = upper_camel_case_ident(value);
+                        xdr_union_name_by_value.push(quote! {
+                            #tmp_type::#value_ident => Ok(stringify!(#variant))
+                        });
                     }
                 } else {
                     let eindex = Literal::u32_unsuffixed(eindex);
-- 
2.43.0


From dbf3e16e3a52ba1391dab7b1bcdfe181fba50cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 22/39] fix: encode an enum by its value wherever it is used
 with std traits

---
 rpcgen/src/gen_code.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 2dc5277..edeb4c2 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -339,6 +339,12 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
                     }
                 }
             }
+
+            impl From<#name_ident> for i32 {
+                fn from(v: #name_ident) -> Self {
+                    *v.as_ref()
+                }
+            }
         }
     } else {
         quote! {}
@@ -374,6 +380,11 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let derive = if cxt.config.enum_impl_indexer {
         quote! { #[derive(Clone, Debug, PartialEq, XdrIndexer)] }
+    } else if cxt.config.enum_impl_std_trait {
+        quote! {
+            #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)]
+            #[serde(into = "i32", try_from = "i32")]
+        }
     } else {
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
@@ -417,7 +428,7 @@ fn convert_struct_token(
             OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
             _ => {
                 if cxt.config.enum_impl_std_trait
-                    && cxt.is_enum_type(declaration.type_specifier().unwrap())
+                    && matches!(declaration, Declaration::Variable(ty, _) if cxt.is_enum_type(ty.clone()))
                 {
                     quote! { #[serde(with = "serde_xdr::primitive::signed32")] }
                 } else {
-- 
2.43.0


From 3556d1249f6ccc494982d6d19c2cbddeb45a6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 23/39] fix: encode the opaque data of a default arm as opaque
 data

---
 rpcgen/src/gen_code.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index edeb4c2..d49fc6d 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -611,15 +611,18 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((v_ty, _)) = convert_type_token(default, cxt)? {
+        if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
+            let (attr, v_ty) = convert_variant_token(v_ty, opaque, cxt);
             if cxt.config.union_impl_union {
                 specs.push(quote! {
+                    #attr
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
                 default_value = Some(quote! { Default(Default::default(), Default::default()) });
             } else {
                 specs.push(quote! {
+                    #attr
                     Default(#v_ty)
                 });
 
@@ -864,19 +867,8 @@ fn convert_case_token(
     };
 
     let decl = convert_type_token(declaration, cxt)?;
-    if let Some((mut v_ty, opaque)) = decl {
-        let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
-            // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
-            v_ty = quote! { serde_xdr::opaque::VariableArray };
-            quote! {}
-        } else {
-            match opaque {
-                OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
-                OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
-                _ => quote! {},
-            }
-        };
-
+    if let Some((v_ty, opaque)) = decl {
+        let (derive, v_ty) = convert_variant_token(v_ty, opaque, cxt);
         let value_token = if cxt.config.union_impl_union {
             quote! {
                 #derive
@@ -913,6 +905,25 @@ fn convert_case_token(
     }
 }
 
+fn convert_variant_token(
+    ty: TokenStream,
+    opaque: OpaqueType,
+    cxt: &Context,
+) -> (TokenStream, TokenStream) {
+    match opaque {
+        OpaqueType::None => (quote! {}, ty),
+        // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
+        _ if !cxt.config.union_complement_index() => {
+            (quote! {}, quote! { serde_xdr::opaque::VariableArray })
+        }
+        OpaqueType::Fixed => (quote! { #[serde(with = "serde_xdr::opaque::fixed")] }, ty),
+        OpaqueType::Variable => (
+            quote! { #[serde(with = "serde_xdr::opaque::variable")] },
+            ty,
+        ),
+    }
+}
+
 fn resolve_type_token(value: &str, cxt: &Context) -> Result<(TokenStream, OpaqueType), Error> {
     if !cxt.config.remove_typedef {
         let name = upper_camel_case_ident(value);
-- 
2.43.0


From 3b7575187d12d2cafd1738700a1d664e2d8ee88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 24/39] fix: parse a program that has several versions

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index d810443..5314e92 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -793,7 +793,7 @@ fn program(input: &str) -> IResult<&str, Program> {
             preceded((tag("program"), multispace1), identifier),
             delimited(
                 (multispace0, tag("{"), multispace0),
-                many1(version),
+                many1(terminated(version, multispace0)),
                 (multispace0, tag("}"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
-- 
2.43.0


From eae817bd3dabdf4656517a180e7ecda4ae999647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 25/39] fix: do not take an identifier that starts with case as
 a case label

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 5314e92..a62fab3 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -444,7 +444,7 @@ fn case_spec(input: &str) -> IResult<&str, CaseSpec> {
     map(
         (
             many1(delimited(
-                (comment0, tag("case"), comment0),
+                (comment0, tag("case"), not(one_of_identifier), comment0),
                 value,
                 (comment0, tag(":"), comment0),
             )),
-- 
2.43.0


From 18611d374036cd0e5b22ced9356282b3e3488407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 26/39] fix: parse a pass-through line that ends the file

---
 rpcgen/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index a62fab3..bacebda 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, not, opt, recognize, verify},
+    combinator::{eof, map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -467,7 +467,7 @@ fn comment0(input: &str) -> IResult<&str, Option<Vec<&str>>> {
 }
 
 fn comment_line(input: &str) -> IResult<&str, &str> {
-    delimited(tag("%"), not_line_ending, line_ending).parse(input)
+    delimited(tag("%"), not_line_ending, alt((line_ending, eof))).parse(input)
 }
 
 fn constant(input: &str) -> IResult<&str, Constant> {
-- 
2.43.0


From 54760052f2ce1057ffec4c6092561e9c440c7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 27/39] fix: accept white space and comments between any tokens

---
 rpcgen/src/parser.rs | 101 +++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 43 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index bacebda..879ffa5 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -5,8 +5,8 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_until},
     character::complete::{
-        alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
-        not_line_ending, oct_digit1, one_of,
+        alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, not_line_ending,
+        oct_digit1, one_of,
     },
     combinator::{eof, map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
@@ -466,6 +466,10 @@ fn comment0(input: &str) -> IResult<&str, Option<Vec<&str>>> {
     .parse(input)
 }
 
+fn comment1(input: &str) -> IResult<&str, &str> {
+    verify(recognize(comment0), |v: &str| !v.is_empty()).parse(input)
+}
+
 fn comment_line(input: &str) -> IResult<&str, &str> {
     delimited(tag("%"), not_line_ending, alt((line_ending, eof))).parse(input)
 }
@@ -482,7 +486,7 @@ fn constant(input: &str) -> IResult<&str, Constant> {
 
 fn constant_def(input: &str) -> IResult<&str, Assign> {
     preceded(
-        (tag("const"), multispace1),
+        (tag("const"), comment1),
         terminated(assign, (comment0, tag(";"))),
     )
     .parse(input)
@@ -502,22 +506,30 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
         map(void, |_| Declaration::void()),
         map(
             (
-                preceded((tag("opaque"), multispace1), identifier),
-                delimited(tag("["), value, tag("]")),
+                preceded((tag("opaque"), comment1), identifier),
+                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
             ),
             |(i, v)| Declaration::opaque_fixed_array(i, v),
         ),
         map(
             (
-                preceded((tag("opaque"), multispace1), identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded((tag("opaque"), comment1), identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(i, v)| Declaration::opaque_variable_array(i, v),
         ),
         map(
             (
-                preceded((tag("string"), multispace1), identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded((tag("string"), comment1), identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(i, v)| Declaration::string(i, v),
         ),
@@ -547,7 +559,7 @@ fn enum_body(input: &str) -> IResult<&str, Vec<Assign>> {
 
 fn enum_type_spec(input: &str) -> IResult<&str, EnumTypeSpec> {
     map(
-        preceded((tag("enum"), multispace1), enum_body),
+        preceded((tag("enum"), comment0), enum_body),
         EnumTypeSpec::new,
     )
     .parse(input)
@@ -595,7 +607,7 @@ fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
 
 fn struct_type_spec(input: &str) -> IResult<&str, StructTypeSpec> {
     map(
-        preceded((tag("struct"), multispace1), struct_body),
+        preceded((tag("struct"), comment0), struct_body),
         StructTypeSpec::new,
     )
     .parse(input)
@@ -605,7 +617,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
     alt((
         map(
             delimited(
-                (tag("typedef"), multispace1),
+                (tag("typedef"), comment1),
                 declaration,
                 (comment0, tag(";")),
             ),
@@ -613,7 +625,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("enum"), multispace1),
+                (tag("enum"), comment1),
                 (terminated(identifier, comment0), enum_body),
                 (comment0, tag(";")),
             ),
@@ -621,7 +633,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("struct"), multispace1),
+                (tag("struct"), comment1),
                 (terminated(identifier, comment0), struct_body),
                 (comment0, tag(";")),
             ),
@@ -629,7 +641,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("union"), multispace1),
+                (tag("union"), comment1),
                 (terminated(identifier, comment0), union_body),
                 (comment0, tag(";")),
             ),
@@ -644,7 +656,7 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
         map(
             (
                 tag("unsigned"),
-                multispace1,
+                comment1,
                 terminated(tag("int"), not(one_of_identifier)),
             ),
             |_| TypeSpecifier::Int(false),
@@ -655,7 +667,7 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
         map(
             (
                 tag("unsigned"),
-                multispace1,
+                comment1,
                 terminated(tag("hyper"), not(one_of_identifier)),
             ),
             |_| TypeSpecifier::Hyper(false),
@@ -667,7 +679,7 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
         map(
             (
                 tag("unsigned"),
-                multispace1,
+                comment1,
                 terminated(tag("char"), not(one_of_identifier)),
             ),
             |_| TypeSpecifier::Char(false),
@@ -678,7 +690,7 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
         map(
             (
                 tag("unsigned"),
-                multispace1,
+                comment1,
                 terminated(tag("short"), not(one_of_identifier)),
             ),
             |_| TypeSpecifier::Short(false),
@@ -717,23 +729,26 @@ fn typed_declaration(input: &str) -> IResult<&str, Declaration> {
     alt((
         map(
             (
-                preceded(multispace1, identifier),
-                delimited(tag("["), value, tag("]")),
+                preceded(comment1, identifier),
+                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
             ),
             |(i, v)| Declaration::fixed_array(ty.clone(), i, v),
         ),
         map(
             (
-                preceded(multispace1, identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded(comment1, identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(i, v)| Declaration::variable_array(ty.clone(), i, v),
         ),
-        map(
-            preceded((multispace0, tag("*"), multispace0), identifier),
-            |i| Declaration::option_variable(ty.clone(), i),
-        ),
-        map(preceded(multispace1, identifier), |i| {
+        map(preceded((comment0, tag("*"), comment0), identifier), |i| {
+            Declaration::option_variable(ty.clone(), i)
+        }),
+        map(preceded(comment1, identifier), |i| {
             Declaration::variable(ty.clone(), i)
         }),
     ))
@@ -765,7 +780,7 @@ fn union_body(input: &str) -> IResult<&str, UnionBody> {
 
 fn union_type_spec(input: &str) -> IResult<&str, UnionTypeSpec> {
     map(
-        preceded((tag("union"), multispace1), union_body),
+        preceded((tag("union"), comment1), union_body),
         UnionTypeSpec::new,
     )
     .parse(input)
@@ -790,13 +805,13 @@ fn one_of_identifier(input: &str) -> IResult<&str, &str> {
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
-            preceded((tag("program"), multispace1), identifier),
+            preceded((tag("program"), comment1), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
-                many1(terminated(version, multispace0)),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("{"), comment0),
+                many1(terminated(version, comment0)),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Program::new(a, b, c),
     )
@@ -806,13 +821,13 @@ fn program(input: &str) -> IResult<&str, Program> {
 fn version(input: &str) -> IResult<&str, Version> {
     map(
         (
-            preceded((tag("version"), multispace1), identifier),
+            preceded((tag("version"), comment1), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
-                many1(terminated(procedure, multispace0)),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("{"), comment0),
+                many1(terminated(procedure, comment0)),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Version::new(a, b, c),
     )
@@ -824,15 +839,15 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
         (
             terminated(
                 alt((type_specifier, map(void, |_| TypeSpecifier::Void))),
-                multispace1,
+                comment1,
             ),
             identifier,
             delimited(
-                (multispace0, tag("("), multispace0),
+                (comment0, tag("("), comment0),
                 alt((type_specifier, map(void, |_| TypeSpecifier::Void))),
-                (multispace0, tag(")"), multispace0),
+                (comment0, tag(")"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c, d)| Procedure::new(a, b, c, d),
     )
-- 
2.43.0


From 9fc35c94c96f6598fc2debadafd63c8d84d16e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 28/39] fix: generate an array length from an enum value

---
 rpcgen/src/gen_code.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index d49fc6d..92d7821 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -756,6 +756,16 @@ where
     }
 }
 
+fn convert_length_token(value: &Value, cxt: &Context) -> Result<TokenStream, Error> {
+    match value {
+        Value::Identifier(i) if !cxt.constants.iter().any(|(name, _)| name == i) => {
+            let v = cxt.resolve_value::<usize>(value)?;
+            Ok(quote! { #v })
+        }
+        _ => convert_value_token::<usize>(value, false),
+    }
+}
+
 fn convert_type_token(
     declaration: &Declaration,
     cxt: &Context,
@@ -767,7 +777,7 @@ fn convert_type_token(
         }
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            let len = convert_value_token::<usize>(value, false)?;
+            let len = convert_length_token(value, cxt)?;
             Ok(Some((quote! { [#ty; #len as usize] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
@@ -783,7 +793,7 @@ fn convert_type_token(
             }
         }
         Declaration::OpaqueFixedArray(_, value) => {
-            let len = convert_value_token::<usize>(value, false)?;
+            let len = convert_length_token(value, cxt)?;
             Ok(Some((quote! { [u8; #len as usize] }, OpaqueType::Fixed)))
         }
         Declaration::OpaqueVariableArray(_, _) => {
-- 
2.43.0


From 9d9a154fc92f0d2077ae02abf3ee1864b4d39ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 29/39] fix: accept a name right after the body of a nested
 type

---
 rpcgen/src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 879ffa5..b5cff2a 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -729,14 +729,14 @@ fn typed_declaration(input: &str) -> IResult<&str, Declaration> {
     alt((
         map(
             (
-                preceded(comment1, identifier),
+                preceded(comment0, identifier),
                 delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
             ),
             |(i, v)| Declaration::fixed_array(ty.clone(), i, v),
         ),
         map(
             (
-                preceded(comment1, identifier),
+                preceded(comment0, identifier),
                 delimited(
                     (comment0, tag("<"), comment0),
                     opt(value),
@@ -748,7 +748,7 @@ fn typed_declaration(input: &str) -> IResult<&str, Declaration> {
         map(preceded((comment0, tag("*"), comment0), identifier), |i| {
             Declaration::option_variable(ty.clone(), i)
         }),
-        map(preceded(comment1, identifier), |i| {
+        map(preceded(comment0, identifier), |i| {
             Declaration::variable(ty.clone(), i)
         }),
     ))
@@ -839,7 +839,7 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
         (
             terminated(
                 alt((type_specifier, map(void, |_| TypeSpecifier::Void))),
-                comment1,
+                comment0,
             ),
             identifier,
             delimited(
-- 
2.43.0


From 5f64816b743122d5bddc9e44564b0e72097296ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 30/39] fix: refuse a case label that does not fit a signed
 discriminant

---
 rpcgen/src/gen_code.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 92d7821..a4db09d 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -75,6 +75,19 @@ impl Context {
         false
     }
 
+    pub fn is_unsigned_type(&self, ty: &TypeSpecifier) -> bool {
+        match ty {
+            TypeSpecifier::Int(signed) => !signed,
+            TypeSpecifier::Identifier(name) => self.typedefs.iter().any(|(n, def)| match def {
+                TypeDef::Declaration(Declaration::Variable(alias, _)) if name == n => self
+                    .resolve_once(n, || Ok(self.is_unsigned_type(alias)))
+                    .unwrap_or(false),
+                _ => false,
+            }),
+            _ => false,
+        }
+    }
+
     pub fn resolve_const_value<'a, T>(&'a self, name: &str) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
@@ -479,6 +492,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             for spec in &body.specs {
                 for value in &spec.values {
                     let index = cxt.resolve_value(value)?;
+                    if index > i32::MAX as u32 && !cxt.is_unsigned_type(cond_type) {
+                        return Err(Error::NotSupported);
+                    }
                     values.push((index, spec.declaration.clone(), value));
                 }
             }
-- 
2.43.0


From 8441d6ce5266679295559e33cb3c751570eaa9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 31/39] fix: generate code that compiles for a type named like
 one of the prelude

---
 rpcgen/src/gen_code.rs      | 44 +++++++++++++++++++------------------
 serde-xdr-derive/src/lib.rs | 12 +++++-----
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a4db09d..abca3b2 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -328,7 +328,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let as_ref = if cxt.config.enum_impl_std_trait {
         quote! {
-            impl AsRef<i32> for #name_ident {
+            impl ::std::convert::AsRef<i32> for #name_ident {
                 fn as_ref(&self) -> &'static i32 {
                     match self {
                         #(#as_ref_values),*
@@ -342,10 +342,10 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let try_from = if cxt.config.enum_impl_std_trait {
         quote! {
-            impl TryFrom<i32> for #name_ident {
+            impl ::std::convert::TryFrom<i32> for #name_ident {
                 type Error = serde_xdr::error::Error;
 
-                fn try_from(v: i32) -> Result<Self, serde_xdr::error::Error> {
+                fn try_from(v: i32) -> ::std::result::Result<Self, serde_xdr::error::Error> {
                     match v {
                         #(#try_from_values),*,
                         _ => Err(serde_xdr::error::Error::Convert),
@@ -353,7 +353,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
                 }
             }
 
-            impl From<#name_ident> for i32 {
+            impl ::std::convert::From<#name_ident> for i32 {
                 fn from(v: #name_ident) -> Self {
                     *v.as_ref()
                 }
@@ -373,7 +373,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> Result<&'static str, Self::Error> {
+                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, Self::Error> {
                     match index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm,
@@ -410,7 +410,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             #(#values),*
         }
 
-        impl Default for #name_ident {
+        impl ::std::default::Default for #name_ident {
             fn default() -> Self {
                 #name_ident::#default_value
             }
@@ -454,7 +454,7 @@ fn convert_struct_token(
 
         if struct_type == declaration.type_specifier() {
             // TODO: Add nested structure support.
-            ty = quote! { Box<#ty> };
+            ty = quote! { ::std::boxed::Box<#ty> };
         }
 
         fields.push(quote! {
@@ -635,21 +635,23 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default(), Default::default()) });
+                default_value = Some(
+                    quote! { Default(::std::default::Default::default(), ::std::default::Default::default()) },
+                );
             } else {
                 specs.push(quote! {
                     #attr
                     Default(#v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default()) });
+                default_value = Some(quote! { Default(::std::default::Default::default()) });
             }
         } else if cxt.config.union_impl_union {
             specs.push(quote! {
                 Default(#xdr_union_cond_type)
             });
 
-            default_value = Some(quote! { Default(Default::default()) });
+            default_value = Some(quote! { Default(::std::default::Default::default()) });
         } else {
             specs.push(quote! {
                 Default
@@ -676,7 +678,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> Result<&'static str, Self::Error> {
+                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, Self::Error> {
                     match index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm
@@ -708,7 +710,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_value(value: &#xdr_union_cond_type) -> Result<&'static str, Self::Error> {
+                fn name_by_value(value: &#xdr_union_cond_type) -> ::std::result::Result<&'static str, Self::Error> {
                     match value {
                         #(#xdr_union_name_by_value),*,
                         #xdr_union_name_by_value_default_arm
@@ -735,7 +737,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             #(#specs),*
         }
 
-        impl Default for #name_ident {
+        impl ::std::default::Default for #name_ident {
             fn default() -> Self {
                 #name_ident::#default_value
             }
@@ -800,12 +802,12 @@ fn convert_type_token(
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
             if opaque == OpaqueType::Variable {
                 Ok(Some((
-                    quote! { Vec<serde_xdr::opaque::VariableArray> },
+                    quote! { ::std::vec::Vec<serde_xdr::opaque::VariableArray> },
                     OpaqueType::None,
                 )))
             } else {
                 // TODO: Add inner fixed opaque array support.
-                Ok(Some((quote! { Vec<#ty> }, opaque)))
+                Ok(Some((quote! { ::std::vec::Vec<#ty> }, opaque)))
             }
         }
         Declaration::OpaqueFixedArray(_, value) => {
@@ -813,12 +815,12 @@ fn convert_type_token(
             Ok(Some((quote! { [u8; #len as usize] }, OpaqueType::Fixed)))
         }
         Declaration::OpaqueVariableArray(_, _) => {
-            Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
+            Ok(Some((quote! { ::std::vec::Vec<u8> }, OpaqueType::Variable)))
         }
-        Declaration::String(_, _) => Ok(Some((quote! { String }, OpaqueType::None))),
+        Declaration::String(_, _) => Ok(Some((quote! { ::std::string::String }, OpaqueType::None))),
         Declaration::OptionVariable(type_specifier, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            Ok(Some((quote! { Option<#ty> }, opaque)))
+            Ok(Some((quote! { ::std::option::Option<#ty> }, opaque)))
         }
         Declaration::Void => Ok(None),
     }
@@ -908,9 +910,9 @@ fn convert_case_token(
         };
 
         let default_token = if cxt.config.union_impl_union {
-            quote! { #value(Default::default(), Default::default()) }
+            quote! { #value(::std::default::Default::default(), ::std::default::Default::default()) }
         } else {
-            quote! { #value(Default::default()) }
+            quote! { #value(::std::default::Default::default()) }
         };
 
         Ok((
@@ -922,7 +924,7 @@ fn convert_case_token(
         ))
     } else if cxt.config.union_impl_union {
         let value_token = quote! { #value(#cond_type) };
-        let default_token = quote! { #value(Default::default()) };
+        let default_token = quote! { #value(::std::default::Default::default()) };
         Ok((value.clone(), value, value_token, default_token, cond_type))
     } else {
         let value_token = quote! { #value };
diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index e9a6161..1aa26c3 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -60,7 +60,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
     let max_elements = max_fields(&ast) + 1;
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            fn serialize<S>(&self, serializer: S) -> ::std::result::Result<S::Ok, S::Error>
             where
                 S: ::serde::ser::Serializer,
             {
@@ -79,7 +79,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
             where
                 D: ::serde::de::Deserializer<'de>
             {
@@ -92,7 +92,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+                    fn visit_seq<A>(self, mut seq: A) -> ::std::result::Result<Self::Value, A::Error>
                     where
                         A: ::serde::de::SeqAccess<'de>,
                     {
@@ -187,7 +187,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let max_elements = max_fields(&ast);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            fn serialize<S>(&self, serializer: S) -> ::std::result::Result<S::Ok, S::Error>
             where
                 S: ::serde::ser::Serializer,
             {
@@ -203,7 +203,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
             where
                 D: ::serde::de::Deserializer<'de>
             {
@@ -216,7 +216,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+                    fn visit_seq<A>(self, mut seq: A) -> ::std::result::Result<Self::Value, A::Error>
                     where
                         A: ::serde::de::SeqAccess<'de>,
                     {
-- 
2.43.0


From a2ca303f57d86b65180d451979c87c079e29acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 32/39] fix: generate code that compiles for an item named
 Error

---
 rpcgen/src/gen_code.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index abca3b2..8ecd943 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -373,7 +373,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, Self::Error> {
+                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
                     match index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm,
@@ -678,7 +678,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrIndexer for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, Self::Error> {
+                fn name_by_index(index: i32) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
                     match index {
                         #(#xdr_indexer_name_by_index),*,
                         #xdr_indexer_name_by_index_default_arm
@@ -710,7 +710,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
                 type Error = ::serde_xdr::error::Error;
 
-                fn name_by_value(value: &#xdr_union_cond_type) -> ::std::result::Result<&'static str, Self::Error> {
+                fn name_by_value(value: &#xdr_union_cond_type) -> ::std::result::Result<&'static str, ::serde_xdr::error::Error> {
                     match value {
                         #(#xdr_union_name_by_value),*,
                         #xdr_union_name_by_value_default_arm
-- 
2.43.0


From f0c203dc4adf7a286e8494bfa42a11d47bb8ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 33/39] fix: generate code for an enum with a gap between
 negative values

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 8ecd943..76a9ac0 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -295,7 +295,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         if cxt.config.enum_complement_index() {
             for index in start..end {
                 // enum は index でシリアライズするため存在しない値は補完する。
-                let reserved = format_ident!("_Reserved{}", index.to_string());
+                let reserved = format_ident!("_Reserved{}", index.to_string().replace('-', "_"));
                 values.push(quote! {
                     #reserved = #index
                 });
-- 
2.43.0


From 344d66c5822a6f387bc286fbcb7bbb67dc30f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 34/39] fix: types named A, D or S clash with the generic
 parameters of the derived code

---
 serde-xdr-derive/src/lib.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 1aa26c3..ea3747b 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -60,9 +60,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
     let max_elements = max_fields(&ast) + 1;
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> ::std::result::Result<S::Ok, S::Error>
+            fn serialize<__S>(&self, serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
             where
-                S: ::serde::ser::Serializer,
+                __S: ::serde::ser::Serializer,
             {
                 let index = self.index();
 
@@ -79,9 +79,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+            fn deserialize<__D>(deserializer: __D) -> ::std::result::Result<Self, __D::Error>
             where
-                D: ::serde::de::Deserializer<'de>
+                __D: ::serde::de::Deserializer<'de>
             {
                 struct XdrIndexerVisitor;
 
@@ -92,9 +92,9 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> ::std::result::Result<Self::Value, A::Error>
+                    fn visit_seq<__A>(self, mut seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
                     where
-                        A: ::serde::de::SeqAccess<'de>,
+                        __A: ::serde::de::SeqAccess<'de>,
                     {
                         let index = seq.next_element::<i32>()?.unwrap();
                         let variant = Self::Value::name_by_index(index)
@@ -187,9 +187,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let max_elements = max_fields(&ast);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> ::std::result::Result<S::Ok, S::Error>
+            fn serialize<__S>(&self, serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
             where
-                S: ::serde::ser::Serializer,
+                __S: ::serde::ser::Serializer,
             {
                 let mut ser = serializer.serialize_tuple(2usize)?;
 
@@ -203,9 +203,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+            fn deserialize<__D>(deserializer: __D) -> ::std::result::Result<Self, __D::Error>
             where
-                D: ::serde::de::Deserializer<'de>
+                __D: ::serde::de::Deserializer<'de>
             {
                 struct XdrUnionVisitor;
 
@@ -216,9 +216,9 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                         formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> ::std::result::Result<Self::Value, A::Error>
+                    fn visit_seq<__A>(self, mut seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
                     where
-                        A: ::serde::de::SeqAccess<'de>,
+                        __A: ::serde::de::SeqAccess<'de>,
                     {
                         let value = seq.next_element::<#value_ty>()?.unwrap();
                         let variant = Self::Value::name_by_value(&value)
-- 
2.43.0


From 878ad68dd2c1adc4ad22cf86094ee61a409486f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 35/39] fix: a structure named u8 with an opaque member

---
 rpcgen/src/gen_code.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 76a9ac0..c2327c0 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -452,7 +452,14 @@ fn convert_struct_token(
 
         let field_name_ident = snake_case_ident(field_name);
 
-        if struct_type == declaration.type_specifier() {
+        // The type of an opaque or a string is never the structure itself, whatever its name.
+        let builtin = matches!(
+            declaration,
+            Declaration::OpaqueFixedArray(_, _)
+                | Declaration::OpaqueVariableArray(_, _)
+                | Declaration::String(_, _)
+        );
+        if !builtin && struct_type == declaration.type_specifier() {
             // TODO: Add nested structure support.
             ty = quote! { ::std::boxed::Box<#ty> };
         }
-- 
2.43.0


From 97505cbf64ff0dde9410e13d3eca8eb431e773b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 36/39] fix: a union's default value is its first arm with that
 arm's own discriminant

---
 rpcgen/src/gen_code.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c2327c0..21e34cb 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -521,7 +521,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 }
 
                 let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(value_token, &decl, cond_type, cxt)?;
+                    convert_case_token(value_token, eindex, &decl, cond_type, cxt)?;
                 specs.push(value);
                 if default_value.is_none() {
                     default_value = Some(default);
@@ -565,7 +565,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
 
                     let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                        convert_case_token(value, 0, &case.declaration, cond_type, cxt)?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -601,7 +601,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
 
                     let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                        convert_case_token(value, 1, &case.declaration, cond_type, cxt)?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -641,30 +641,20 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     #attr
                     Default(#xdr_union_cond_type, #v_ty)
                 });
-
-                default_value = Some(
-                    quote! { Default(::std::default::Default::default(), ::std::default::Default::default()) },
-                );
             } else {
                 specs.push(quote! {
                     #attr
                     Default(#v_ty)
                 });
-
-                default_value = Some(quote! { Default(::std::default::Default::default()) });
             }
         } else if cxt.config.union_impl_union {
             specs.push(quote! {
                 Default(#xdr_union_cond_type)
             });
-
-            default_value = Some(quote! { Default(::std::default::Default::default()) });
         } else {
             specs.push(quote! {
                 Default
             });
-
-            default_value = Some(quote! { Default });
         }
     }
 
@@ -875,6 +865,7 @@ fn convert_primitive_token(
 
 fn convert_case_token(
     value: &Value,
+    index: u32,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
     cxt: &Context,
@@ -888,7 +879,8 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value, true)?;
+    let label = value;
+    let value = convert_value_token::<u32>(label, true)?;
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
@@ -901,6 +893,19 @@ fn convert_case_token(
         }
     };
 
+    // 既定値の判別値は既定値のケースを示す。
+    let cond_value = if cond_type_spec == &TypeSpecifier::Bool {
+        let v = label.is_true();
+        quote! { #v }
+    } else if !cxt.is_enum_type(cond_type_spec.clone()) {
+        let v = Literal::u32_unsuffixed(index);
+        quote! { #v }
+    } else if let Value::Identifier(_) = label {
+        quote! { #cond_type::#value }
+    } else {
+        quote! { ::std::default::Default::default() }
+    };
+
     let decl = convert_type_token(declaration, cxt)?;
     if let Some((v_ty, opaque)) = decl {
         let (derive, v_ty) = convert_variant_token(v_ty, opaque, cxt);
@@ -917,7 +922,7 @@ fn convert_case_token(
         };
 
         let default_token = if cxt.config.union_impl_union {
-            quote! { #value(::std::default::Default::default(), ::std::default::Default::default()) }
+            quote! { #value(#cond_value, ::std::default::Default::default()) }
         } else {
             quote! { #value(::std::default::Default::default()) }
         };
@@ -931,7 +936,7 @@ fn convert_case_token(
         ))
     } else if cxt.config.union_impl_union {
         let value_token = quote! { #value(#cond_type) };
-        let default_token = quote! { #value(::std::default::Default::default()) };
+        let default_token = quote! { #value(#cond_value) };
         Ok((value.clone(), value, value_token, default_token, cond_type))
     } else {
         let value_token = quote! { #value };
-- 
2.43.0


From f300c464ea8a011544961bdd15cdb3cd1f3e4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 37/39] fix: labels of a boolean union other than TRUE and
 FALSE are refused, not dropped

---
 rpcgen/src/gen_code.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 21e34cb..689ce37 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -556,6 +556,12 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             }
         }
         TypeSpecifier::Bool => {
+            // TRUE と FALSE 以外の値は真偽値に変換できない。
+            let mut values = body.specs.iter().flat_map(|s| &s.values);
+            if !values.all(|v| v.is_false() || v.is_true()) {
+                return Err(Error::NotSupported);
+            }
+
             let false_case = body
                 .specs
                 .iter()
-- 
2.43.0


From 03881020a8ba6a7398214bb11f219a2e355c05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:36 +0000
Subject: [PATCH 38/39] fix: decide a union on a boolean named by a typedef

---
 rpcgen/src/gen_code.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 689ce37..9201e87 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -75,6 +75,19 @@ impl Context {
         false
     }
 
+    pub fn is_bool_type(&self, ty: &TypeSpecifier) -> bool {
+        match ty {
+            TypeSpecifier::Bool => true,
+            TypeSpecifier::Identifier(name) => self.typedefs.iter().any(|(n, def)| match def {
+                TypeDef::Declaration(Declaration::Variable(alias, _)) if name == n => self
+                    .resolve_once(n, || Ok(self.is_bool_type(alias)))
+                    .unwrap_or(false),
+                _ => false,
+            }),
+            _ => false,
+        }
+    }
+
     pub fn is_unsigned_type(&self, ty: &TypeSpecifier) -> bool {
         match ty {
             TypeSpecifier::Int(signed) => !signed,
@@ -489,6 +502,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let name_ident = upper_camel_case_ident(name);
 
     let cond_type = match &body.cond {
+        // 真偽値の別名は真偽値として扱う。
+        Declaration::Variable(cond_type, _) if cxt.is_bool_type(cond_type) => {
+            Ok(&TypeSpecifier::Bool)
+        }
         Declaration::Variable(cond_type, _) => Ok(cond_type),
         _ => Err(Error::NotSupported),
     }?;
-- 
2.43.0


From d1442c1831bfde5cf1411a76014153d81d91c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 39/39] fix: refuse a union that is decided by anything but an
 integer, an enumeration or a boolean

---
 rpcgen/src/gen_code.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 9201e87..96e4428 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -88,6 +88,24 @@ impl Context {
         }
     }
 
+    pub fn is_discriminant_type(&self, ty: &TypeSpecifier) -> bool {
+        match ty {
+            TypeSpecifier::Int(_) | TypeSpecifier::Bool => true,
+            TypeSpecifier::Identifier(name) => {
+                match self.typedefs.iter().find(|(n, _)| n == name) {
+                    Some((_, TypeDef::Enum(_, _))) => true,
+                    Some((n, TypeDef::Declaration(Declaration::Variable(alias, _)))) => self
+                        .resolve_once(n, || Ok(self.is_discriminant_type(alias)))
+                        .unwrap_or(false),
+                    Some(_) => false,
+                    // ほかのファイルの型。
+                    None => true,
+                }
+            }
+            _ => false,
+        }
+    }
+
     pub fn is_unsigned_type(&self, ty: &TypeSpecifier) -> bool {
         match ty {
             TypeSpecifier::Int(signed) => !signed,
@@ -506,7 +524,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         Declaration::Variable(cond_type, _) if cxt.is_bool_type(cond_type) => {
             Ok(&TypeSpecifier::Bool)
         }
-        Declaration::Variable(cond_type, _) => Ok(cond_type),
+        Declaration::Variable(cond_type, _) if cxt.is_discriminant_type(cond_type) => Ok(cond_type),
         _ => Err(Error::NotSupported),
     }?;
 
-- 
2.43.0

