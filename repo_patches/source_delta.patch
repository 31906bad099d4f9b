From 7990d961cfe7b98c54b9b6ce1307536e179d9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 01/13] fix: text Tag reads as many characters as the tag has,
 not as many as it has bytes

---
 nommy/src/text/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/text/tag.rs b/nommy/src/text/tag.rs
index bffbc2d..99d1bc0 100644
--- a/nommy/src/text/tag.rs
+++ b/nommy/src/text/tag.rs
@@ -15,7 +15,7 @@ pub struct Tag<const TAG: &'static str>;
 
 impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     fn parse(input: &mut impl Buffer<char>) -> eyre::Result<Self> {
-        let s = String::from_iter(input.take(TAG.len()));
+        let s = String::from_iter(input.take(TAG.chars().count()));
         if TAG == s {
             Ok(Self)
         } else {
@@ -24,7 +24,7 @@ impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        TAG.chars().eq(input.take(TAG.len()))
+        TAG.chars().eq(input.take(TAG.chars().count()))
     }
 }
 
-- 
2.43.0


From 7b820e7908058a96b38f12ecfca4a5dd9cb99d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 02/13] fix: WhileNot1::peek ends at the end of input and needs
 at least one character

---
 nommy/src/text/many.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nommy/src/text/many.rs b/nommy/src/text/many.rs
index ee9df2d..df3e5fc 100644
--- a/nommy/src/text/many.rs
+++ b/nommy/src/text/many.rs
@@ -87,18 +87,14 @@ impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        if OneOf::<CHARS>::peek(input) {
-            return false;
-        }
-        loop {
-            let mut cursor = input.cursor();
-            if OneOf::<CHARS>::peek(&mut cursor) {
+        let mut found = false;
+        while !OneOf::<CHARS>::peek(&mut input.cursor()) {
+            if input.next().is_none() {
                 break;
             }
-            let pos = cursor.position();
-            input.fast_forward(pos);
+            found = true;
         }
-        true
+        found
     }
 }
 
-- 
2.43.0


From 3ad464c5843c664915f6e3d52195483b838285bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 03/13] fix: reading a cursor at the end of input does not move
 its position

---
 nommy/src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index 915278a..b96f1f1 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -197,9 +197,9 @@ impl<'a, T, B: Buffer<T>> Iterator for Cursor<'a, T, B> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
-        let output = self.buf.peek_ahead(self.base + self.index);
+        let output = self.buf.peek_ahead(self.base + self.index)?;
         self.index += 1;
-        output
+        Some(output)
     }
 }
 
-- 
2.43.0


From 6bd9e6f63b77cf4749e9a53396728f016b26cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 04/13] fix: parsing an array never drops uninitialised memory
 and drops what it parsed when it fails

---
 nommy/src/impls.rs | 22 ++++++++++------------
 nommy/src/lib.rs   |  2 --
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/nommy/src/impls.rs b/nommy/src/impls.rs
index 2364f9e..06c5105 100644
--- a/nommy/src/impls.rs
+++ b/nommy/src/impls.rs
@@ -1,7 +1,7 @@
 //! Implemtations of [`Parse`] and [`Peek`] for types in
 //! the rust standard library
 use crate::{eyre, Buffer, Context, Parse};
-use std::mem::MaybeUninit;
+use std::convert::TryInto;
 
 /// Result is `None` if parsing `P` fails, otherwise, result is `Some(p)`
 impl<P: Parse<T>, T> Parse<T> for Option<P> {
@@ -155,18 +155,16 @@ impl<P: Parse<T>, T> Parse<T> for Vec1<P> {
 /// ```
 impl<P: Parse<T>, T, const N: usize> Parse<T> for [P; N] {
     fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
-        // safety: we only return the new data if no errors occured,
-        // and if no errors occured, then we definitely filled all N spaces
-        // therefore the array was initialised.
-        unsafe {
-            let mut output = MaybeUninit::uninit_array();
-            for (i, output) in output.iter_mut().enumerate() {
-                *output.as_mut_ptr() =
-                    P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?;
-            }
-
-            Ok(MaybeUninit::array_assume_init(output))
+        let mut output = Vec::with_capacity(N);
+        for i in 0..N {
+            output.push(
+                P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?,
+            );
         }
+
+        output
+            .try_into()
+            .map_err(|_| eyre::eyre!("could not parse {} elements", N))
     }
 
     fn peek(input: &mut impl Buffer<T>) -> bool {
diff --git a/nommy/src/lib.rs b/nommy/src/lib.rs
index a83100a..aee2981 100644
--- a/nommy/src/lib.rs
+++ b/nommy/src/lib.rs
@@ -1,7 +1,5 @@
 #![allow(incomplete_features)]
 #![feature(array_map)]
-#![feature(maybe_uninit_uninit_array)]
-#![feature(maybe_uninit_array_assume_init)]
 #![feature(const_generics)]
 #![deny(missing_docs)]
 #![warn(clippy::pedantic)]
-- 
2.43.0


From 23a3522933304b35035a5df43568823814556b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 05/13] fix: derived list fields with a separator compile
 without a fixed parse_type

---
 nommy-derive/src/fn_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index b5dd3e8..8f98362 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -99,6 +99,9 @@ impl<'a> Builder<'a> {
             let parser: Option<&syn::Type> = (&attrs.vec.parser).into();
             let parser = parser.unwrap();
             self.add_where(&parser);
+            if let Some(sep) = &attrs.vec.seperated_by {
+                self.add_where(sep);
+            }
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
             self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
-- 
2.43.0


From 6f179f9c1183af8d0fd054fe1a6edad1f69f1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 06/13] fix: ignored tokens are skipped after a derived list
 field, as after any other field

---
 nommy-derive/src/fn_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index 8f98362..87f013d 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -115,8 +115,8 @@ impl<'a> Builder<'a> {
                 &format!("failed to parse field `{}`", name),
             ));
             self.peek_impl.extend(self.peeker_peek_tokens(&parser));
-            self.ignore();
         }
+        self.ignore();
 
         self.add_fix(&attrs.suffix, "suffix", format!("field `{}`", name));
     }
-- 
2.43.0


From c53283256961d32e3857f4bb593f2161c7178ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 07/13] fix: peeking a derived list field reads separators,
 conversions and limits as parsing does

---
 nommy-derive/src/fn_impl.rs | 58 +++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index 87f013d..3361444 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -104,7 +104,8 @@ impl<'a> Builder<'a> {
             }
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
-            self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
+            self.peek_impl
+                .extend(self.peeker_peek_vec_tokens(&ty, &attrs.vec));
         } else {
             let parser: Option<&syn::Type> = (&attrs.parser).into();
             let parser = parser.unwrap_or(&ty);
@@ -235,7 +236,8 @@ impl<'a> Builder<'a> {
         }
     }
 
-    fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> TokenStream {
+    /// The least number of elements, and the expression that parses the list
+    fn vec_tokens(&self, attrs: &VecFieldAttr) -> (TokenStream, TokenStream) {
         let generic = &self.generic;
 
         let parser: Option<&syn::Type> = (&attrs.parser).into();
@@ -256,51 +258,43 @@ impl<'a> Builder<'a> {
             }
         };
 
-        if let Some(sep) = &attrs.seperated_by {
+        let list = if let Some(sep) = &attrs.seperated_by {
             match &attrs.trailing {
                 Some(true) => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
                 Some(false) => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
                 None => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
             }
         } else {
             quote! {
-                let #name = ::nommy::vec::parse_vec::<#parser, _, __ParseIgnore, #generic, _>(#max, input)?;
-                if #name.len() < #min {
-                    return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                }
+                ::nommy::vec::parse_vec::<#parser, _, __ParseIgnore, #generic, _>(#max, input)
             }
-        }
+        };
+        (min, list)
     }
 
-    pub fn peeker_peek_vec_tokens(&self, ty: &syn::Type) -> TokenStream {
-        let generic = &self.generic;
-        let after_each = &self.after_each;
-
+    fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> TokenStream {
+        let (min, list) = self.vec_tokens(attrs);
         quote! {
-            loop {
-                let mut cursor = input.cursor();
-                if !<#ty as ::nommy::Parse<#generic>>::peek(&mut cursor) {
-                    break;
-                }
-                let pos = cursor.position();
-                input.fast_forward(pos);
+            let #name = #list?;
+            if #name.len() < #min {
+                return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
+            }
+        }
+    }
 
-                #after_each
+    fn peeker_peek_vec_tokens(&self, ty: &syn::Type, attrs: &VecFieldAttr) -> TokenStream {
+        let (min, list) = self.vec_tokens(attrs);
+        quote! {
+            let list: ::nommy::eyre::Result<#ty> = #list;
+            match list {
+                Ok(list) if list.len() >= #min => (),
+                _ => return false,
             }
         }
     }
-- 
2.43.0


From 922162f13927a4bf4a4183c955b45c16d3903f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 08/13] fix: an unbounded list whose elements read nothing is
 reported instead of looping forever

---
 nommy/src/vec.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/nommy/src/vec.rs b/nommy/src/vec.rs
index 85fb7c2..9841094 100644
--- a/nommy/src/vec.rs
+++ b/nommy/src/vec.rs
@@ -4,6 +4,13 @@ use std::{convert::TryInto, error::Error};
 
 use crate::{Buffer, Parse};
 
+/// An unbounded list whose elements and seperators read nothing would never end
+fn check_progress(read: usize, max: usize) {
+    if cfg!(debug_assertions) && read == 0 && max == usize::MAX {
+        panic!("parser passed but read 0 elements. Please ensure it reads at least 1 element otherwise it will cause an infinite loop");
+    }
+}
+
 /// Parses buffer into a vector, with each value being seperated by `SeperatedBy` and ignoreing any `Ignore`
 pub fn parse_vec<P, Q, Ignore, T, B>(max: usize, input: &mut B) -> eyre::Result<Vec<Q>>
 where
@@ -40,6 +47,7 @@ where
         };
 
         let pos = cursor.position();
+        check_progress(pos, max);
         input.fast_forward(pos);
     }
 
@@ -91,6 +99,7 @@ where
         };
 
         let pos = cursor.position();
+        check_progress(pos, max);
         input.fast_forward(pos);
     }
 
@@ -128,6 +137,7 @@ where
         }
         Vec::<Ignore>::peek(&mut cursor);
         let pos = cursor.position();
+        check_progress(pos, max);
         input.fast_forward(pos);
 
         output.push(q);
@@ -160,19 +170,25 @@ where
             Ok(p) => output.push(p.try_into()?),
             Err(_) => break,
         };
+        let mut read = cursor.position();
+        input.fast_forward(read);
+
+        let mut cursor = input.cursor();
+        Vec::<Ignore>::peek(&mut cursor);
         let pos = cursor.position();
         input.fast_forward(pos);
-
-        Vec::<Ignore>::peek(input);
+        read += pos;
 
         let mut cursor = input.cursor();
         if !SeperatedBy::peek(&mut cursor) {
             break;
         }
+        Vec::<Ignore>::peek(&mut cursor);
         let pos = cursor.position();
         input.fast_forward(pos);
+        read += pos;
 
-        Vec::<Ignore>::peek(input);
+        check_progress(read, max);
     }
 
     Ok(output)
-- 
2.43.0


From c184a87e2ea119a505e65f6c034ffda55f8f2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 09/13] fix: peek of a field with a parser is false when the
 value cannot be converted

---
 nommy-derive/src/fn_impl.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index 3361444..dd8efe3 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -115,7 +115,10 @@ impl<'a> Builder<'a> {
                 &parser,
                 &format!("failed to parse field `{}`", name),
             ));
-            self.peek_impl.extend(self.peeker_peek_tokens(&parser));
+            self.peek_impl.extend(match &attrs.parser {
+                Some(parser) => self.peeker_parse_tokens(&ty, &parser),
+                None => self.peeker_peek_tokens(&ty),
+            });
         }
         self.ignore();
 
@@ -236,6 +239,19 @@ impl<'a> Builder<'a> {
         }
     }
 
+    /// Whether a value of type `ty` can be made is only known from the value that was parsed
+    fn peeker_parse_tokens(&self, ty: &syn::Type, parser: &syn::Type) -> TokenStream {
+        let generic = &self.generic;
+        quote! {
+            match <#parser as ::nommy::Parse<#generic>>::parse(input) {
+                Ok(value) => {
+                    if ::std::convert::TryInto::<#ty>::try_into(value).is_err() { return false }
+                }
+                Err(_) => return false,
+            }
+        }
+    }
+
     /// The least number of elements, and the expression that parses the list
     fn vec_tokens(&self, attrs: &VecFieldAttr) -> (TokenStream, TokenStream) {
         let generic = &self.generic;
-- 
2.43.0


From a3285bde6607c2fd7f5d636228dbbe91daebb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 10/13] fix: names of fields and types do not clash with names
 used by the generated code

---
 nommy-derive/src/enum_impl/mod.rs       | 18 +++---
 nommy-derive/src/enum_impl/named.rs     | 11 +++-
 nommy-derive/src/enum_impl/unit.rs      |  2 +-
 nommy-derive/src/enum_impl/unnamed.rs   |  6 +-
 nommy-derive/src/fn_impl.rs             | 75 +++++++++++++------------
 nommy-derive/src/parsers.rs             |  4 ++
 nommy-derive/src/struct_impl/named.rs   | 13 ++---
 nommy-derive/src/struct_impl/unit.rs    |  8 +--
 nommy-derive/src/struct_impl/unnamed.rs | 12 ++--
 9 files changed, 76 insertions(+), 73 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 1040a2f..8e272be 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -70,18 +70,18 @@ impl ToTokens for Enum {
             let (peek_fn, parse_fn) = match attrs.parse_type {
                 Some(_) => (
                     quote!{
-                        fn #peek_name(input: &mut impl ::nommy::Buffer<#generic>) -> bool
+                        fn #peek_name(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool
                     },
                     quote!{
-                        fn #parse_name(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self>
+                        fn #parse_name(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self>
                     },
                 ),
                 None => (
                     quote!{
-                        fn #peek_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> bool where #wc
+                        fn #peek_name<#generic>(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool where #wc
                     },
                     quote!{
-                        fn #parse_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> where #wc
+                        fn #parse_name<#generic>(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> where #wc
                     },
                 ),
             };
@@ -91,8 +91,6 @@ impl ToTokens for Enum {
                 impl<#(#args),*> #name<#(#args),*>
                 {
                     #parse_fn {
-                        use ::nommy::eyre::WrapErr;
-                        use ::std::convert::TryInto;
                         #parse_impl
                         #parse_result
                     }
@@ -128,15 +126,13 @@ impl ToTokens for Enum {
         tokens.extend(quote!{
             #[automatically_derived]
             #impl_line {
-                fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                fn parse(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
                     #parse_impl
 
-                    Ok(result)
+                    ::std::result::Result::Ok(__nommy_result)
                 }
 
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #peek_impl
 
                     true
diff --git a/nommy-derive/src/enum_impl/named.rs b/nommy-derive/src/enum_impl/named.rs
index baa5524..8b764b9 100644
--- a/nommy-derive/src/enum_impl/named.rs
+++ b/nommy-derive/src/enum_impl/named.rs
@@ -1,5 +1,9 @@
 use super::Enum;
-use crate::{attr::GlobalAttr, fn_impl::FnImpl, parsers::NamedField};
+use crate::{
+    attr::GlobalAttr,
+    fn_impl::FnImpl,
+    parsers::{FieldType, NamedField},
+};
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -28,11 +32,12 @@ impl EnumVariantNamed {
 
     pub fn result(&self, enum_: &Enum) -> TokenStream {
         let names = self.fields.iter().map(|f| &f.name);
+        let bindings = self.fields.iter().enumerate().map(|(i, f)| f.binding(i));
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
-            Ok(#enum_name::#variant_name {#(
-                #names: #names,
+            ::std::result::Result::Ok(#enum_name::#variant_name {#(
+                #names: #bindings,
             )*})
         }
     }
diff --git a/nommy-derive/src/enum_impl/unit.rs b/nommy-derive/src/enum_impl/unit.rs
index 5d837d1..59a46b9 100644
--- a/nommy-derive/src/enum_impl/unit.rs
+++ b/nommy-derive/src/enum_impl/unit.rs
@@ -25,7 +25,7 @@ impl EnumVariantUnit {
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
-            Ok(#enum_name::#variant_name)
+            ::std::result::Result::Ok(#enum_name::#variant_name)
         }
     }
 }
diff --git a/nommy-derive/src/enum_impl/unnamed.rs b/nommy-derive/src/enum_impl/unnamed.rs
index a36975a..fb97788 100644
--- a/nommy-derive/src/enum_impl/unnamed.rs
+++ b/nommy-derive/src/enum_impl/unnamed.rs
@@ -30,12 +30,12 @@ impl EnumVariantUnnamed {
     }
 
     pub fn result(&self, enum_: &Enum) -> TokenStream {
-        let names = self.fields.iter().enumerate().map(|(i, f)| f.name(i));
+        let bindings = self.fields.iter().enumerate().map(|(i, f)| f.binding(i));
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
-            Ok(#enum_name::#variant_name (#(
-                #names,
+            ::std::result::Result::Ok(#enum_name::#variant_name (#(
+                #bindings,
             )*))
         }
     }
diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index dd8efe3..7fa8f41 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -91,6 +91,7 @@ impl<'a> Builder<'a> {
     pub fn add_field<F: FieldType>(&mut self, field: &F, field_num: usize) {
         let ty = field.ty();
         let name = field.name(field_num);
+        let binding = field.binding(field_num);
         let attrs = field.attrs();
 
         self.add_fix(&attrs.prefix, "prefix", format!("field `{}`", name));
@@ -103,7 +104,7 @@ impl<'a> Builder<'a> {
                 self.add_where(sep);
             }
             self.parse_impl
-                .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
+                .extend(self.parser_parse_vec_tokens(&binding, &attrs.vec));
             self.peek_impl
                 .extend(self.peeker_peek_vec_tokens(&ty, &attrs.vec));
         } else {
@@ -111,7 +112,7 @@ impl<'a> Builder<'a> {
             let parser = parser.unwrap_or(&ty);
             self.add_where(&parser);
             self.parse_impl.extend(self.parser_parse_tokens(
-                &name,
+                &binding,
                 &parser,
                 &format!("failed to parse field `{}`", name),
             ));
@@ -127,32 +128,32 @@ impl<'a> Builder<'a> {
 
     pub fn start_variants(&mut self) {
         self.parse_impl.extend(quote! {
-            let mut cursor = input.cursor();
-            let result =
+            let mut __nommy_cursor = __nommy_input.cursor();
+            let __nommy_result =
         });
         self.peek_impl
-            .extend(quote! { let mut cursor = input.cursor(); if });
+            .extend(quote! { let mut __nommy_cursor = __nommy_input.cursor(); if });
     }
     pub fn add_variant(&mut self, peek_name: &syn::Ident, parse_name: &syn::Ident) {
         self.parse_impl.extend(quote! {
-            if let (true, Ok(result)) = (cursor.reset_internal(), Self::#parse_name(&mut cursor)) {
-                result
+            if let (true, ::std::result::Result::Ok(__nommy_result)) = (__nommy_cursor.reset_internal(), Self::#parse_name(&mut __nommy_cursor)) {
+                __nommy_result
             } else
         });
         self.peek_impl.extend(quote! {
-            !Self::#peek_name(&mut cursor) && cursor.reset_internal() &&
+            !Self::#peek_name(&mut __nommy_cursor) && __nommy_cursor.reset_internal() &&
         });
     }
     pub fn finish_variants(&mut self, error: String) {
         self.parse_impl.extend(quote! {
-            { return Err(::nommy::eyre::eyre!(#error)); };
-            let pos = cursor.position();
-            input.fast_forward(pos);
+            { return ::std::result::Result::Err(::nommy::eyre::eyre!(#error)); };
+            let __nommy_pos = __nommy_cursor.position();
+            __nommy_input.fast_forward(__nommy_pos);
         });
         self.peek_impl.extend(quote! {
             true { return false; }
-            let pos = cursor.position();
-            input.fast_forward(pos);
+            let __nommy_pos = __nommy_cursor.position();
+            __nommy_input.fast_forward(__nommy_pos);
         });
     }
 }
@@ -223,19 +224,21 @@ impl<'a> Builder<'a> {
     fn parser_peek_tokens(&self, ty: &syn::Type, error: &str) -> TokenStream {
         let generic = &self.generic;
         quote! {
-            if !(<#ty as ::nommy::Parse<#generic>>::peek(input)) { return Err(::nommy::eyre::eyre!(#error)) }
+            if !(<#ty as ::nommy::Parse<#generic>>::peek(__nommy_input)) { return ::std::result::Result::Err(::nommy::eyre::eyre!(#error)) }
         }
     }
     fn parser_parse_tokens(&self, name: &syn::Ident, ty: &syn::Type, error: &str) -> TokenStream {
         let generic = &self.generic;
         quote! {
-            let #name = <#ty as ::nommy::Parse<#generic>>::parse(input).wrap_err(#error)?.try_into()?;
+            let #name = ::std::convert::TryInto::try_into(
+                ::nommy::eyre::WrapErr::wrap_err(<#ty as ::nommy::Parse<#generic>>::parse(__nommy_input), #error)?
+            )?;
         }
     }
     fn peeker_peek_tokens(&self, ty: &syn::Type) -> TokenStream {
         let generic = &self.generic;
         quote! {
-            if !(<#ty as ::nommy::Parse<#generic>>::peek(input)) { return false }
+            if !(<#ty as ::nommy::Parse<#generic>>::peek(__nommy_input)) { return false }
         }
     }
 
@@ -243,11 +246,11 @@ impl<'a> Builder<'a> {
     fn peeker_parse_tokens(&self, ty: &syn::Type, parser: &syn::Type) -> TokenStream {
         let generic = &self.generic;
         quote! {
-            match <#parser as ::nommy::Parse<#generic>>::parse(input) {
-                Ok(value) => {
-                    if ::std::convert::TryInto::<#ty>::try_into(value).is_err() { return false }
+            match <#parser as ::nommy::Parse<#generic>>::parse(__nommy_input) {
+                ::std::result::Result::Ok(__nommy_value) => {
+                    if ::std::convert::TryInto::<#ty>::try_into(__nommy_value).is_err() { return false }
                 }
-                Err(_) => return false,
+                ::std::result::Result::Err(_) => return false,
             }
         }
     }
@@ -268,7 +271,7 @@ impl<'a> Builder<'a> {
                 };
                 let max = match &attrs.max {
                     Some(max) => quote! { #max },
-                    None => quote! { usize::MAX },
+                    None => quote! { ::std::usize::MAX },
                 };
                 (min, max)
             }
@@ -277,18 +280,18 @@ impl<'a> Builder<'a> {
         let list = if let Some(sep) = &attrs.seperated_by {
             match &attrs.trailing {
                 Some(true) => quote! {
-                    ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
+                    ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, __nommy_input)
                 },
                 Some(false) => quote! {
-                    ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
+                    ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, __nommy_input)
                 },
                 None => quote! {
-                    ::nommy::vec::parse_vec_seperated_by::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
+                    ::nommy::vec::parse_vec_seperated_by::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, __nommy_input)
                 },
             }
         } else {
             quote! {
-                ::nommy::vec::parse_vec::<#parser, _, __ParseIgnore, #generic, _>(#max, input)
+                ::nommy::vec::parse_vec::<#parser, _, __ParseIgnore, #generic, _>(#max, __nommy_input)
             }
         };
         (min, list)
@@ -299,7 +302,7 @@ impl<'a> Builder<'a> {
         quote! {
             let #name = #list?;
             if #name.len() < #min {
-                return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
+                return ::std::result::Result::Err(::nommy::eyre::eyre!("could not parse enough for vec"));
             }
         }
     }
@@ -307,9 +310,9 @@ impl<'a> Builder<'a> {
     fn peeker_peek_vec_tokens(&self, ty: &syn::Type, attrs: &VecFieldAttr) -> TokenStream {
         let (min, list) = self.vec_tokens(attrs);
         quote! {
-            let list: ::nommy::eyre::Result<#ty> = #list;
-            match list {
-                Ok(list) if list.len() >= #min => (),
+            let __nommy_list: ::nommy::eyre::Result<#ty> = #list;
+            match __nommy_list {
+                ::std::result::Result::Ok(__nommy_list) if __nommy_list.len() >= #min => (),
                 _ => return false,
             }
         }
@@ -326,13 +329,13 @@ impl<'a> Builder<'a> {
             ignore_wc.extend(self.where_tokens(&ty));
             ignore_impl.extend(quote! {
             {
-                let mut cursor = input.cursor();
-                if <#ty as ::nommy::Parse<#generic>>::peek(&mut cursor) {
-                    let pos = cursor.position();
-                    if ::std::cfg!(debug_assertions) && pos == 0 {
+                let mut __nommy_cursor = __nommy_input.cursor();
+                if <#ty as ::nommy::Parse<#generic>>::peek(&mut __nommy_cursor) {
+                    let __nommy_pos = __nommy_cursor.position();
+                    if ::std::cfg!(debug_assertions) && __nommy_pos == 0 {
                         panic!("ignore type `{}` passed but read 0 elements. Please ensure it reads at least 1 element otherwise it will cause an infinite loop", #ty_string);
                     }
-                    input.fast_forward(pos);
+                    __nommy_input.fast_forward(__nommy_pos);
                     return true
                 }
             }
@@ -354,7 +357,7 @@ impl<'a> Builder<'a> {
                 fn parse(_: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
                     unimplemented!()
                 }
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #ignore_impl
 
                     false
@@ -363,7 +366,7 @@ impl<'a> Builder<'a> {
         };
 
         let after_each = quote! {
-            <::std::vec::Vec<__ParseIgnore> as ::nommy::Parse<#generic>>::peek(input);
+            <::std::vec::Vec<__ParseIgnore> as ::nommy::Parse<#generic>>::peek(__nommy_input);
         };
 
         (ignore_impl, after_each)
diff --git a/nommy-derive/src/parsers.rs b/nommy-derive/src/parsers.rs
index d05f59f..9cc66ab 100644
--- a/nommy-derive/src/parsers.rs
+++ b/nommy-derive/src/parsers.rs
@@ -42,6 +42,10 @@ pub struct UnnamedField {
 pub trait FieldType {
     fn ty(&self) -> &syn::Type;
     fn name(&self, i: usize) -> syn::Ident;
+    /// The variable that holds the value of this field, which no name used in the field can refer to
+    fn binding(&self, i: usize) -> syn::Ident {
+        format_ident!("__nommy_field_{}", self.name(i))
+    }
     fn attrs(&self) -> &FieldAttr;
 }
 
diff --git a/nommy-derive/src/struct_impl/named.rs b/nommy-derive/src/struct_impl/named.rs
index 1d54bf5..6921f28 100644
--- a/nommy-derive/src/struct_impl/named.rs
+++ b/nommy-derive/src/struct_impl/named.rs
@@ -6,7 +6,7 @@ use quote::{quote, ToTokens};
 use crate::{
     attr::GlobalAttr,
     fn_impl::{parse_or, BuildOutput, FnImpl},
-    parsers::NamedField,
+    parsers::{FieldType, NamedField},
 };
 
 pub struct Named {
@@ -42,6 +42,7 @@ impl ToTokens for Named {
         } = fn_impl.build(&name);
 
         let names = self.fields.iter().map(|f| &f.name);
+        let bindings = self.fields.iter().enumerate().map(|(i, f)| f.binding(i));
 
         let impl_line = match attrs.parse_type {
             Some(_) => quote!{
@@ -55,17 +56,15 @@ impl ToTokens for Named {
         tokens.extend(quote!{
             #[automatically_derived]
             #impl_line {
-                fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                fn parse(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
                     #parse_impl
 
-                    Ok(#name {#(
-                        #names,
+                    ::std::result::Result::Ok(#name {#(
+                        #names: #bindings,
                     )*})
                 }
 
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #peek_impl
                     true
                 }
diff --git a/nommy-derive/src/struct_impl/unit.rs b/nommy-derive/src/struct_impl/unit.rs
index 55350f4..ec9254e 100644
--- a/nommy-derive/src/struct_impl/unit.rs
+++ b/nommy-derive/src/struct_impl/unit.rs
@@ -50,14 +50,12 @@ impl ToTokens for Unit {
         tokens.extend(quote!{
             #[automatically_derived]
             #impl_line {
-                fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                fn parse(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
                     #parse_impl
-                    Ok(#name)
+                    ::std::result::Result::Ok(#name)
                 }
 
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #peek_impl
                     true
                 }
diff --git a/nommy-derive/src/struct_impl/unnamed.rs b/nommy-derive/src/struct_impl/unnamed.rs
index fa1768b..4f03470 100644
--- a/nommy-derive/src/struct_impl/unnamed.rs
+++ b/nommy-derive/src/struct_impl/unnamed.rs
@@ -50,22 +50,20 @@ impl ToTokens for Unnamed {
             },
         };
 
-        let names = self.fields.iter().enumerate().map(|(i, f)| f.name(i));
+        let bindings = self.fields.iter().enumerate().map(|(i, f)| f.binding(i));
 
         tokens.extend(quote!{
             #[automatically_derived]
             #impl_line {
-                fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                fn parse(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
                     #parse_impl
 
-                    Ok(#name (#(
-                        #names,
+                    ::std::result::Result::Ok(#name (#(
+                        #bindings,
                     )*))
                 }
 
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #peek_impl
                     true
                 }
-- 
2.43.0


From b7117e5214ec35f5521abe4589e1edf529be33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 11/13] fix: enum variants whose names differ only in case, or
 are raw identifiers, can be derived

---
 nommy-derive/src/enum_impl/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 8e272be..2ffac99 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -49,7 +49,7 @@ impl ToTokens for Enum {
         outer_builder.add_fix(&attrs.prefix, "prefix", format!("enum `{}`", name));
         outer_builder.start_variants();
 
-        for v in vars {
+        for (i, v) in vars.iter().enumerate() {
             let BuildOutput {
                 peek_impl,
                 parse_impl,
@@ -58,9 +58,8 @@ impl ToTokens for Enum {
 
             outer_builder.add_where_raw(wc.clone());
 
-            let var_name = map_vars!(v => |n| n.name.to_string().to_lowercase());
-            let parse_name = format_ident!("__parse_{}", var_name);
-            let peek_name = format_ident!("__peek_{}", var_name);
+            let parse_name = format_ident!("__parse_variant{}", i);
+            let peek_name = format_ident!("__peek_variant{}", i);
             let parse_result = map_vars!(v => |n| n.result(&self));
 
             outer_builder.add_variant(&peek_name, &parse_name);
-- 
2.43.0


From 61e2794069785d065c9b4278149aa8939939fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 12/13] fix: commas inside generics do not split attribute
 rules

---
 nommy-derive/src/attr.rs | 70 ++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 4883709..0dc2a58 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};
 
 #[derive(Default)]
 pub struct GlobalAttr {
@@ -29,6 +29,32 @@ fn parse_type(
     syn::parse2(stream)
 }
 
+/// Splits attribute arguments at the commas between them, which are those outside of any generics
+fn split_args(mut span: Span, tokens: TokenStream) -> Vec<(Span, TokenStream)> {
+    let mut args = vec![];
+    let mut stream = TokenStream::new();
+    let mut depth = 0;
+    let mut arrow = false;
+    for tt in tokens {
+        if let TokenTree::Punct(p) = &tt {
+            match p.as_char() {
+                ',' if depth == 0 => {
+                    args.push((span, std::mem::take(&mut stream)));
+                    span = p.span();
+                    continue;
+                }
+                '<' => depth += 1,
+                '>' if !arrow => depth -= 1,
+                _ => (),
+            }
+            arrow = p.as_char() == '-' && p.spacing() == Spacing::Joint;
+        }
+        stream.extend(vec![tt]);
+    }
+    args.push((span, stream));
+    args
+}
+
 impl GlobalAttr {
     pub fn extend_with(mut self, extend: &Self) -> Self {
         self.ignore.extend_from_slice(&extend.ignore);
@@ -72,24 +98,11 @@ impl GlobalAttr {
         Ok(())
     }
 
-    pub fn parse_args(&mut self, mut span: Span, tokens: TokenStream) -> syn::Result<()> {
-        let mut stream = TokenStream::new();
-        for tt in tokens {
-            match tt {
-                TokenTree::Punct(p) => {
-                    if p.as_char() == ',' {
-                        let mut tmp = TokenStream::new();
-                        std::mem::swap(&mut stream, &mut tmp);
-                        self.parse_arg(span, tmp)?;
-                        span = p.span();
-                    } else {
-                        stream.extend(vec![TokenTree::Punct(p)])
-                    }
-                }
-                _ => stream.extend(vec![tt]),
-            }
+    pub fn parse_args(&mut self, span: Span, tokens: TokenStream) -> syn::Result<()> {
+        for (span, arg) in split_args(span, tokens) {
+            self.parse_arg(span, arg)?;
         }
-        self.parse_arg(span, stream)
+        Ok(())
     }
 
     pub fn parse_arg(&mut self, span: Span, tokens: TokenStream) -> syn::Result<()> {
@@ -171,24 +184,11 @@ impl FieldAttr {
         Ok(())
     }
 
-    pub fn parse_args(&mut self, mut span: Span, tokens: TokenStream) -> syn::Result<()> {
-        let mut stream = TokenStream::new();
-        for tt in tokens {
-            match tt {
-                TokenTree::Punct(p) => {
-                    if p.as_char() == ',' {
-                        let mut tmp = TokenStream::new();
-                        std::mem::swap(&mut stream, &mut tmp);
-                        self.parse_arg(span, tmp)?;
-                        span = p.span();
-                    } else {
-                        stream.extend(vec![TokenTree::Punct(p)])
-                    }
-                }
-                _ => stream.extend(vec![tt]),
-            }
+    pub fn parse_args(&mut self, span: Span, tokens: TokenStream) -> syn::Result<()> {
+        for (span, arg) in split_args(span, tokens) {
+            self.parse_arg(span, arg)?;
         }
-        self.parse_arg(span, stream)
+        Ok(())
     }
 
     pub fn parse_arg(&mut self, span: Span, tokens: TokenStream) -> syn::Result<()> {
-- 
2.43.0


From 66a3dd141e2bce84b6719b4bd275cc8d3e80a1fb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 13/13] fix: generic types can be derived with a fixed
 parse_type

---
 nommy-derive/src/enum_impl/mod.rs       | 24 +++++++++++++++---------
 nommy-derive/src/enum_impl/named.rs     |  1 +
 nommy-derive/src/enum_impl/unit.rs      |  1 +
 nommy-derive/src/enum_impl/unnamed.rs   |  1 +
 nommy-derive/src/fn_impl.rs             | 10 ++++++++--
 nommy-derive/src/struct_impl/named.rs   |  3 ++-
 nommy-derive/src/struct_impl/unit.rs    |  3 ++-
 nommy-derive/src/struct_impl/unnamed.rs |  3 ++-
 nommy-derive/src/ty.rs                  | 14 ++++++++++++++
 9 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 2ffac99..10f7cf0 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -43,20 +43,26 @@ impl ToTokens for Enum {
             generic,
         } = self;
 
-        let mut outer_builder = Builder::new(generic, name, &attrs.parse_type);
+        let mut outer_builder = Builder::new(generic, name, args, &attrs.parse_type);
 
         outer_builder.create_ignore(&attrs.ignore);
         outer_builder.add_fix(&attrs.prefix, "prefix", format!("enum `{}`", name));
         outer_builder.start_variants();
 
-        for (i, v) in vars.iter().enumerate() {
+        let outputs: Vec<BuildOutput> = vars
+            .iter()
+            .map(|v| map_vars! {v => |n| n.fn_impl(&self).build(&name)})
+            .collect();
+        // a variant may refer to the enum, and thereby need what the other variants need
+        let wc: TokenStream = outputs.iter().map(|output| output.wc.clone()).collect();
+        outer_builder.add_where_raw(wc.clone());
+
+        for (i, (v, output)) in vars.iter().zip(outputs).enumerate() {
             let BuildOutput {
                 peek_impl,
                 parse_impl,
-                wc,
-            } = map_vars! {v => |n| n.fn_impl(&self).build(&name)};
-
-            outer_builder.add_where_raw(wc.clone());
+                ..
+            } = output;
 
             let parse_name = format_ident!("__parse_variant{}", i);
             let peek_name = format_ident!("__peek_variant{}", i);
@@ -69,10 +75,10 @@ impl ToTokens for Enum {
             let (peek_fn, parse_fn) = match attrs.parse_type {
                 Some(_) => (
                     quote!{
-                        fn #peek_name(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool
+                        fn #peek_name(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool where #wc
                     },
                     quote!{
-                        fn #parse_name(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self>
+                        fn #parse_name(__nommy_input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> where #wc
                     },
                 ),
                 None => (
@@ -115,7 +121,7 @@ impl ToTokens for Enum {
 
         let impl_line = match attrs.parse_type {
             Some(_) => quote!{
-                impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*>
+                impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
             },
             None => quote!{
                 impl<#generic, #(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
diff --git a/nommy-derive/src/enum_impl/named.rs b/nommy-derive/src/enum_impl/named.rs
index 8b764b9..ffc0be8 100644
--- a/nommy-derive/src/enum_impl/named.rs
+++ b/nommy-derive/src/enum_impl/named.rs
@@ -27,6 +27,7 @@ impl EnumVariantNamed {
             fields,
             attrs,
             generic: &enum_.generic,
+            args: &enum_.args,
         }
     }
 
diff --git a/nommy-derive/src/enum_impl/unit.rs b/nommy-derive/src/enum_impl/unit.rs
index 59a46b9..b7b6f3e 100644
--- a/nommy-derive/src/enum_impl/unit.rs
+++ b/nommy-derive/src/enum_impl/unit.rs
@@ -18,6 +18,7 @@ impl EnumVariantUnit {
             fields,
             attrs,
             generic: &enum_.generic,
+            args: &enum_.args,
         }
     }
 
diff --git a/nommy-derive/src/enum_impl/unnamed.rs b/nommy-derive/src/enum_impl/unnamed.rs
index fb97788..fd1aac5 100644
--- a/nommy-derive/src/enum_impl/unnamed.rs
+++ b/nommy-derive/src/enum_impl/unnamed.rs
@@ -26,6 +26,7 @@ impl EnumVariantUnnamed {
             fields,
             attrs,
             generic: &enum_.generic,
+            args: &enum_.args,
         }
     }
 
diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index 7fa8f41..377d6bc 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -16,6 +16,7 @@ pub struct BuildOutput {
 pub struct Builder<'a> {
     generic: &'a syn::Type,
     type_name: &'a syn::Ident,
+    args: &'a [syn::Ident],
     parse_type: &'a Option<syn::Type>,
 
     peek_impl: TokenStream,
@@ -28,11 +29,13 @@ impl<'a> Builder<'a> {
     pub fn new(
         generic: &'a syn::Type,
         type_name: &'a syn::Ident,
+        args: &'a [syn::Ident],
         parse_type: &'a Option<syn::Type>,
     ) -> Self {
         Self {
             generic,
             type_name,
+            args,
             parse_type,
             peek_impl: TokenStream::new(),
             parse_impl: TokenStream::new(),
@@ -164,11 +167,12 @@ pub struct FnImpl<'a, F> {
     pub fields: &'a [F],
     pub attrs: &'a GlobalAttr,
     pub generic: &'a syn::Type,
+    pub args: &'a [syn::Ident],
 }
 
 impl<'a, F: FieldType> FnImpl<'a, F> {
     pub fn build(&self, type_name: &syn::Ident) -> BuildOutput {
-        let mut builder = Builder::new(self.generic, type_name, &self.attrs.parse_type);
+        let mut builder = Builder::new(self.generic, type_name, self.args, &self.attrs.parse_type);
 
         builder.create_ignore(&self.attrs.ignore);
         builder.add_fix(
@@ -214,7 +218,9 @@ pub fn parse_or(parse_type: &Option<syn::Type>) -> syn::Type {
 
 impl<'a> Builder<'a> {
     fn where_tokens(&self, ty: &syn::Type) -> TokenStream {
-        if crate::ty::contains(&ty, &self.type_name) {
+        // with a fixed parse type, only what the type parameters stand for is not known yet
+        let known = self.parse_type.is_some() && !crate::ty::names_any(ty.to_token_stream(), self.args);
+        if known || crate::ty::contains(&ty, &self.type_name) {
             quote! {}
         } else {
             let generic = &self.generic;
diff --git a/nommy-derive/src/struct_impl/named.rs b/nommy-derive/src/struct_impl/named.rs
index 6921f28..74f26bc 100644
--- a/nommy-derive/src/struct_impl/named.rs
+++ b/nommy-derive/src/struct_impl/named.rs
@@ -33,6 +33,7 @@ impl ToTokens for Named {
             fields,
             attrs,
             generic,
+            args,
         };
 
         let BuildOutput {
@@ -46,7 +47,7 @@ impl ToTokens for Named {
 
         let impl_line = match attrs.parse_type {
             Some(_) => quote!{
-                impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*>
+                impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
             },
             None => quote!{
                 impl<#generic, #(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
diff --git a/nommy-derive/src/struct_impl/unit.rs b/nommy-derive/src/struct_impl/unit.rs
index ec9254e..bc1513e 100644
--- a/nommy-derive/src/struct_impl/unit.rs
+++ b/nommy-derive/src/struct_impl/unit.rs
@@ -30,6 +30,7 @@ impl ToTokens for Unit {
             fields,
             attrs,
             generic,
+            args,
         };
 
         let BuildOutput {
@@ -40,7 +41,7 @@ impl ToTokens for Unit {
 
         let impl_line = match attrs.parse_type {
             Some(_) => quote!{
-                impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*>
+                impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
             },
             None => quote!{
                 impl<#generic, #(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
diff --git a/nommy-derive/src/struct_impl/unnamed.rs b/nommy-derive/src/struct_impl/unnamed.rs
index 4f03470..e643580 100644
--- a/nommy-derive/src/struct_impl/unnamed.rs
+++ b/nommy-derive/src/struct_impl/unnamed.rs
@@ -33,6 +33,7 @@ impl ToTokens for Unnamed {
             fields,
             attrs,
             generic,
+            args,
         };
 
         let BuildOutput {
@@ -43,7 +44,7 @@ impl ToTokens for Unnamed {
 
         let impl_line = match attrs.parse_type {
             Some(_) => quote!{
-                impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*>
+                impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
             },
             None => quote!{
                 impl<#generic, #(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
diff --git a/nommy-derive/src/ty.rs b/nommy-derive/src/ty.rs
index f3f762a..f1216eb 100644
--- a/nommy-derive/src/ty.rs
+++ b/nommy-derive/src/ty.rs
@@ -1,3 +1,5 @@
+use proc_macro2::{TokenStream, TokenTree};
+
 pub fn contains(ty: &syn::Type, type_name: &syn::Ident) -> bool {
     match ty {
         syn::Type::Array(ty) => contains(&ty.elem, type_name),
@@ -6,6 +8,9 @@ pub fn contains(ty: &syn::Type, type_name: &syn::Ident) -> bool {
         syn::Type::Path(path) => match path.path.get_ident() {
             Some(ident) => *ident == *type_name,
             None => {
+                if path.path.segments.len() == 1 && path.path.segments[0].ident == *type_name {
+                    return true;
+                }
                 for segment in &path.path.segments {
                     match &segment.arguments {
                         syn::PathArguments::AngleBracketed(generic_args) => {
@@ -34,3 +39,12 @@ pub fn contains(ty: &syn::Type, type_name: &syn::Ident) -> bool {
         _ => true,
     }
 }
+
+/// Whether any of the names is used in the tokens
+pub fn names_any(tokens: TokenStream, names: &[syn::Ident]) -> bool {
+    tokens.into_iter().any(|tt| match tt {
+        TokenTree::Ident(ident) => names.contains(&ident),
+        TokenTree::Group(group) => names_any(group.stream(), names),
+        _ => false,
+    })
+}
-- 
2.43.0

