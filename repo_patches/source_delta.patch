From 456c4d21e9e0ae3e1b7845ca6571f027bcdb1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:57 +0000
Subject: [PATCH 01/26] fix: LengthData reports missing bytes instead of
 panicking

---
 src/helpers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index c0a8c9e..0430b7a 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,5 +1,6 @@
 use crate::traits::*;
 use core::marker::PhantomData;
+use nom::bytes::streaming::take;
 use nom::error::ParseError;
 use nom::{IResult, ToUsize};
 
@@ -24,17 +25,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length)(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_be(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length)(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_le(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length)(rem)?;
         Ok((rem, LengthData::new(data)))
     }
 }
-- 
2.43.0


From 61dc1e8c65254d54fda77024553f558bed44adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:57 +0000
Subject: [PATCH 02/26] fix: moving the default enum variant last keeps the
 order of other variants

---
 nom-derive-impl/src/gen/enums.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 217736a..ed2a0e3 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -211,11 +211,9 @@ impl GenEnum {
                 .iter()
                 .position(|def| def.selector_type == "_")
                 .expect("default case is handled but couldn't find index");
-            let last_index = self.variants_defs.len() - 1;
-            if pos != last_index {
-                // self.variants_defs.swap(pos, last_index);
-                variants_code.swap(pos, last_index);
-            }
+            // keep the other variants in declaration order: the first matching arm is selected
+            let default_code = variants_code.remove(pos);
+            variants_code.push(default_code);
         }
         Ok((default_case_handled, variants_code))
     }
-- 
2.43.0


From 1ded92e092db2d9f8b24da5fb5e45e974a067c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:57 +0000
Subject: [PATCH 03/26] fix: Verify conditions starting with a literal were
 used as a Map function

---
 nom-derive-impl/src/structs.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ce8d1e5..79895dc 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -246,12 +246,6 @@ fn get_parser(
                         ));
                     }
                 };
-                // if meta.arg is string, parse content
-                let ts_arg = meta.arg().unwrap();
-                if let Some(TokenTree::Literal(_)) = ts_arg.clone().into_iter().next() {
-                    let ts_arg = syn::parse2::<Expr>(ts_arg.clone())?;
-                    return Ok(ParserExpr::Map(Box::new(expr), ts_arg.to_token_stream()));
-                }
                 let ts_arg = meta.arg().unwrap();
                 return Ok(ParserExpr::Verify(
                     Box::new(expr),
-- 
2.43.0


From fdacde4aa61a78d9a4389f855f9f96e4992a8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 04/26] fix: a field-level SetEndian also applies to the
 following fields

---
 nom-derive-impl/src/structs.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 79895dc..4aa498b 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -402,7 +402,7 @@ pub(crate) fn get_pre_post_exec(
             MetaAttrType::SetEndian => {
                 let val = m.arg().unwrap();
                 let qq = quote! { let __endianness = #val; };
-                // config is updated in `get_parser`
+                // config is updated in `parse_fields`
                 tk_pre.extend(qq);
             }
             _ => (),
@@ -437,6 +437,8 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
             // so the caller must check and add attributes
         }
     }
+    // a `SetEndian` attribute affects the following fields, but not what comes after these fields
+    let object_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
         let ident_str = if let Some(s) = field.ident.as_ref() {
             s.to_string()
@@ -445,6 +447,12 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
+        if meta_list
+            .iter()
+            .any(|m| m.is_type(MetaAttrType::SetEndian))
+        {
+            config.object_endianness = ParserEndianness::SetEndian;
+        }
         let mut p = get_field_parser(field, &meta_list, config)?;
 
         if config.complete {
@@ -471,6 +479,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let sp = StructParser::new(ident_str, item, pre, post);
         parsers.push(sp);
     }
+    config.object_endianness = object_endianness;
     Ok(StructParserTree {
         empty,
         unnamed,
-- 
2.43.0


From 4f4fbd3d89223cdcdb619aa50b4ecf2b227817aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 05/26] fix: Move and MoveAbs do not wrap, and report the
 number of missing bytes

---
 nom-derive-impl/src/structs.rs | 50 +++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 4aa498b..f60bd9f 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -284,43 +284,43 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     }
 }
 
-// like quote_skip, but offset is an isize
+// like quote_skip, but offset is signed
 fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), offset.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
-    quote! {
-        let #input = {
-            let start = #orig_input.as_ptr() as usize;
-            let pos = #input.as_ptr() as usize - start;
-            let offset = #offset as isize;
-            let offset_u = offset.abs() as usize;
-            let new_offset = if offset < 0 {
-                if offset_u > pos {
-                    return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
-                }
-                pos - offset_u
-            } else {
-                if pos + offset_u > #orig_input.len() {
-                    return Err(nom::Err::Incomplete(nom::Needed::new(offset_u)));
-                }
-                pos + offset_u
-            };
-            &#orig_input[new_offset..]
-        };
-    }
+    let new_offset = quote! {
+        // evaluate argument first, it must not see the variables defined here
+        let offset = (#offset) as i128;
+        let pos = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
+        let new_offset = offset.saturating_add(pos as i128);
+    };
+    quote_seek(&new_offset, &input, &orig_input)
 }
 
 // like quote_move, with absolute value as offset
 fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), offset.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let new_offset = quote! {
+        let new_offset = (#offset) as i128;
+    };
+    quote_seek(&new_offset, &input, &orig_input)
+}
+
+// set input to the position given by `new_offset` (computed as i128, so it cannot wrap)
+fn quote_seek(new_offset: &TokenStream, input: &Ident, orig_input: &Ident) -> TokenStream {
     quote! {
         let #input = {
-            let offset = #offset as usize;
-            if offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
+            #new_offset
+            if new_offset < 0 {
+                return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
+            }
+            let missing = new_offset - #orig_input.len() as i128;
+            if missing > 0 {
+                let missing = if missing > usize::MAX as i128 { usize::MAX } else { missing as usize };
+                return Err(nom::Err::Incomplete(nom::Needed::new(missing)));
             }
-            &#orig_input[offset..]
+            &#orig_input[new_offset as usize..]
         };
     }
 }
-- 
2.43.0


From 27cae04e0be1e86f886aaffb64967d295aae9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 06/26] fix: alignment arguments can use a variable named
 offset, and zero does not panic

---
 nom-derive-impl/src/structs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index f60bd9f..bb5fb4c 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -276,8 +276,12 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
+            // evaluate argument first, it must not see the variables defined here
             let align = #align as usize;
+            if align == 0 {
+                return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
+            }
+            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
-- 
2.43.0


From 44b5c79843b49a286f8d87b441fdf40b7a5b06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 07/26] fix: generated code for generic errors does not require
 std

---
 nom-derive-impl/src/gen/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index f44e539..0bead90 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -105,7 +105,7 @@ pub(crate) trait Generator {
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
-                        #ident_e: std::fmt::Debug,
+                        #ident_e: core::fmt::Debug,
                     },
                 )
             } else {
@@ -313,7 +313,7 @@ pub(crate) fn gen_fn_decl(
                 #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>
             };
             fn_where_clause.predicates.push(dep);
-            let dep: WherePredicate = parse_quote! { #ident_e: std::fmt::Debug };
+            let dep: WherePredicate = parse_quote! { #ident_e: core::fmt::Debug };
             fn_where_clause.predicates.push(dep);
             // add error type to function generics
             fn_generics = Some(quote!(<#ident_e>));
-- 
2.43.0


From 6430d604c8892b43107d1899e26083705667e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 08/26] fix: sizes and tags can be any expression, not only
 those binding tighter than casts

---
 nom-derive-impl/src/parsertree.rs | 6 +++---
 nom-derive-impl/src/structs.rs    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b0498f6..b83035b 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -141,7 +141,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::combinator::cond(#c, #expr) }
             }
             ParserExpr::Count(expr, n) => {
-                quote! { nom::multi::count(#expr, #n as usize) }
+                quote! { nom::multi::count(#expr, (#n) as usize) }
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
@@ -168,10 +168,10 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::Raw(s) => s.to_token_stream(),
             ParserExpr::Tag(s) => {
-                quote! { nom::bytes::streaming::tag(&#s[..]) }
+                quote! { nom::bytes::streaming::tag(&(#s)[..]) }
             }
             ParserExpr::Take(s) => {
-                quote! { nom::bytes::streaming::take(#s as usize) }
+                quote! { nom::bytes::streaming::take((#s) as usize) }
             }
             ParserExpr::Value(ts) => {
                 quote! {
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index bb5fb4c..9d5be2d 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -277,7 +277,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     quote! {
         let (#input, _) = {
             // evaluate argument first, it must not see the variables defined here
-            let align = #align as usize;
+            let align = (#align) as usize;
             if align == 0 {
                 return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
             }
@@ -333,7 +333,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
-            let skip = #skip as usize;
+            let skip = (#skip) as usize;
             nom::bytes::streaming::take(skip)(#input)
         }?;
     }
-- 
2.43.0


From bcafd2debe8012ad935312bbf4a64d76847d0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 09/26] fix: enums with a selector do not require nom::Parser
 to be imported

---
 nom-derive-impl/src/gen/enums.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index ed2a0e3..4dab637 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -75,6 +75,7 @@ impl Generator for GenEnum {
             quote! { _ => Err(nom::Err::Error(nom::error_position!(#input, nom::error::ErrorKind::Switch))) }
         };
         let tokens = quote! {
+            use nom::Parser;
             let #input = #orig_input;
             #tl_pre
             let (#input, enum_def) = match selector {
-- 
2.43.0


From 7ed4897179e26b2fd6ea483e6c5a0ebbd3abea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 10/26] fix: objects marked Complete never return Incomplete

---
 nom-derive-impl/src/enums.rs               |  5 ++-
 nom-derive-impl/src/gen/fieldless_enums.rs |  8 ++++-
 nom-derive-impl/src/structs.rs             | 38 ++++++++++++++++++----
 3 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index fc489f4..1315582 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -36,7 +36,10 @@ pub(crate) fn parse_variant(
             }
         }
         let (pre, post) = get_pre_post_exec(&meta_list, config);
-        let p = p.unwrap_or(ParserExpr::Nop);
+        let mut p = p.unwrap_or(ParserExpr::Nop);
+        if config.complete {
+            p = p.complete();
+        }
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
         let sp = StructParser::new("_".to_string(), item, pre, post);
         struct_def.parsers.push(sp);
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 4f3d92f..428bf19 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -73,9 +73,10 @@ impl Generator for GenFieldlessEnum {
         let parser = &self.repr_parser.with_endianness(endianness);
         // generate body
         let tokens = quote! {
+            use nom::Parser;
             let #input = #orig_input;
             #tl_pre
-            let (#input, selector) = #parser(#input)?;
+            let (#input, selector) = #parser.parse(#input)?;
             let enum_def =
                 #(#variants_code else)*
             { return Err(nom::Err::Error(nom::error::make_error(#orig_input, nom::error::ErrorKind::Switch))); };
@@ -154,6 +155,11 @@ impl GenFieldlessEnum {
                 ));
             }
         };
+        let repr_parser = if config.complete {
+            repr_parser.complete()
+        } else {
+            repr_parser
+        };
 
         let variants_code: Vec<_> = data_enum
             .variants
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 9d5be2d..82f1776 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -271,7 +271,17 @@ fn get_field_parser(field: &Field, meta_list: &[MetaAttr], config: &Config) -> R
     )
 }
 
+// function used to take padding bytes: if object is marked `Complete`, missing bytes are an error
+fn quote_take_fn(config: &Config) -> TokenStream {
+    if config.complete {
+        quote! { nom::bytes::complete::take }
+    } else {
+        quote! { nom::bytes::streaming::take }
+    }
+}
+
 fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
+    let take = quote_take_fn(config);
     let input = syn::Ident::new(config.input_name(), align.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
@@ -283,7 +293,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
             }
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
-            nom::bytes::streaming::take(align)(#input)
+            #take(align)(#input)
         }?;
     }
 }
@@ -298,7 +308,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
         let pos = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
         let new_offset = offset.saturating_add(pos as i128);
     };
-    quote_seek(&new_offset, &input, &orig_input)
+    quote_seek(&new_offset, &input, &orig_input, config)
 }
 
 // like quote_move, with absolute value as offset
@@ -308,11 +318,25 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let new_offset = quote! {
         let new_offset = (#offset) as i128;
     };
-    quote_seek(&new_offset, &input, &orig_input)
+    quote_seek(&new_offset, &input, &orig_input, config)
 }
 
 // set input to the position given by `new_offset` (computed as i128, so it cannot wrap)
-fn quote_seek(new_offset: &TokenStream, input: &Ident, orig_input: &Ident) -> TokenStream {
+fn quote_seek(
+    new_offset: &TokenStream,
+    input: &Ident,
+    orig_input: &Ident,
+    config: &Config,
+) -> TokenStream {
+    let missing_err = if config.complete {
+        quote! { nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Eof)) }
+    } else {
+        quote! {
+            nom::Err::Incomplete(nom::Needed::new(
+                if missing > usize::MAX as i128 { usize::MAX } else { missing as usize }
+            ))
+        }
+    };
     quote! {
         let #input = {
             #new_offset
@@ -321,8 +345,7 @@ fn quote_seek(new_offset: &TokenStream, input: &Ident, orig_input: &Ident) -> To
             }
             let missing = new_offset - #orig_input.len() as i128;
             if missing > 0 {
-                let missing = if missing > usize::MAX as i128 { usize::MAX } else { missing as usize };
-                return Err(nom::Err::Incomplete(nom::Needed::new(missing)));
+                return Err(#missing_err);
             }
             &#orig_input[new_offset as usize..]
         };
@@ -330,11 +353,12 @@ fn quote_seek(new_offset: &TokenStream, input: &Ident, orig_input: &Ident) -> To
 }
 
 fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
+    let take = quote_take_fn(config);
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
             let skip = (#skip) as usize;
-            nom::bytes::streaming::take(skip)(#input)
+            #take(skip)(#input)
         }?;
     }
 }
-- 
2.43.0


From dc390add928554638eb42e458f03423567e246b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:54 +0000
Subject: [PATCH 11/26] fix: Debug can be used with other attributes and on
 entire objects using them

---
 nom-derive-impl/src/parsertree.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b83035b..a0b4df0 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -145,7 +145,20 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
-                quote! { nom::error::dbg_dmp(#expr, #ident) }
+                match expr.as_ref() {
+                    // combinators are not functions (as required by `dbg_dmp`)
+                    ParserExpr::Complete(_)
+                    | ParserExpr::Cond(_, _)
+                    | ParserExpr::Count(_, _)
+                    | ParserExpr::DbgDmp(_, _)
+                    | ParserExpr::Into(_)
+                    | ParserExpr::LengthCount(_, _)
+                    | ParserExpr::Map(_, _)
+                    | ParserExpr::Verify(_, _, _) => {
+                        quote! { nom::error::dbg_dmp(|__i__| (#expr).parse(__i__), #ident) }
+                    }
+                    _ => quote! { nom::error::dbg_dmp(#expr, #ident) },
+                }
             }
             ParserExpr::Into(expr) => {
                 quote! { nom::combinator::into(#expr) }
-- 
2.43.0


From f6bff67db5d843b3f1d1fceea6ec9d107d730a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 12/26] fix: Debug can be used with Take, and with parsers
 which are combinators

---
 nom-derive-impl/src/parsertree.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index a0b4df0..dea6cbd 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -145,8 +145,8 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
-                match expr.as_ref() {
-                    // combinators are not functions (as required by `dbg_dmp`)
+                // combinators are not functions (as required by `dbg_dmp`)
+                let is_combinator = match expr.as_ref() {
                     ParserExpr::Complete(_)
                     | ParserExpr::Cond(_, _)
                     | ParserExpr::Count(_, _)
@@ -154,10 +154,19 @@ impl ToTokens for ParserExpr {
                     | ParserExpr::Into(_)
                     | ParserExpr::LengthCount(_, _)
                     | ParserExpr::Map(_, _)
-                    | ParserExpr::Verify(_, _, _) => {
-                        quote! { nom::error::dbg_dmp(|__i__| (#expr).parse(__i__), #ident) }
-                    }
-                    _ => quote! { nom::error::dbg_dmp(#expr, #ident) },
+                    | ParserExpr::Take(_)
+                    | ParserExpr::Verify(_, _, _) => true,
+                    // for ex. `length_data(be_u16)`
+                    ParserExpr::Raw(ts) => matches!(
+                        syn::parse2::<syn::Expr>(ts.clone()),
+                        Ok(syn::Expr::Call(_)) | Ok(syn::Expr::MethodCall(_))
+                    ),
+                    _ => false,
+                };
+                if is_combinator {
+                    quote! { nom::error::dbg_dmp(|__i__| (#expr).parse(__i__), #ident) }
+                } else {
+                    quote! { nom::error::dbg_dmp(#expr, #ident) }
                 }
             }
             ParserExpr::Into(expr) => {
-- 
2.43.0


From 3f7198d450ff44b6a74ce8cd30b632882491e9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 13/26] fix: 128-bit counts, sizes, skips and alignments do not
 wrap to small values

---
 nom-derive-impl/src/parsertree.rs | 18 ++++++++++++++++--
 nom-derive-impl/src/structs.rs    |  9 ++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index dea6cbd..be9ef22 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -141,7 +141,8 @@ impl ToTokens for ParserExpr {
                 quote! { nom::combinator::cond(#c, #expr) }
             }
             ParserExpr::Count(expr, n) => {
-                quote! { nom::multi::count(#expr, (#n) as usize) }
+                let n = quote_usize(n);
+                quote! { nom::multi::count(#expr, #n) }
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
@@ -193,7 +194,8 @@ impl ToTokens for ParserExpr {
                 quote! { nom::bytes::streaming::tag(&(#s)[..]) }
             }
             ParserExpr::Take(s) => {
-                quote! { nom::bytes::streaming::take((#s) as usize) }
+                let n = quote_usize(s);
+                quote! { nom::bytes::streaming::take(#n) }
             }
             ParserExpr::Value(ts) => {
                 quote! {
@@ -218,3 +220,15 @@ impl ToTokens for TypeItem {
         self.0.to_tokens(tokens)
     }
 }
+
+/// Convert a number of any integer type to `usize`
+///
+/// Values which are not representable saturate (they do not wrap to smaller values)
+pub(crate) fn quote_usize(n: &TokenStream) -> TokenStream {
+    quote! {
+        {
+            let n = (#n) as u128;
+            if n > usize::MAX as u128 { usize::MAX } else { n as usize }
+        }
+    }
+}
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 82f1776..2eb59ac 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -282,12 +282,13 @@ fn quote_take_fn(config: &Config) -> TokenStream {
 
 fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let take = quote_take_fn(config);
+    let align_value = quote_usize(align);
     let input = syn::Ident::new(config.input_name(), align.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
             // evaluate argument first, it must not see the variables defined here
-            let align = (#align) as usize;
+            let align = #align_value;
             if align == 0 {
                 return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
             }
@@ -354,12 +355,10 @@ fn quote_seek(
 
 fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let take = quote_take_fn(config);
+    let skip_value = quote_usize(skip);
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
-        let (#input, _) = {
-            let skip = (#skip) as usize;
-            #take(skip)(#input)
-        }?;
+        let (#input, _) = #take(#skip_value)(#input)?;
     }
 }
 
-- 
2.43.0


From 24b1c954625220a501f0aae88a08251eb3847a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 14/26] fix: accept alternatives (A | B) at the top level of a
 Selector pattern

---
 nom-derive-impl/src/meta/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 863a1de..51a3c9a 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -304,7 +304,7 @@ struct PatternAndGuard {
 
 impl Parse for PatternAndGuard {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        let pat = Pat::parse_single(input)?;
+        let pat = Pat::parse_multi_with_leading_vert(input)?;
         let guard = if input.peek(Token![if]) {
             let tk_if: Token![if] = input.parse()?;
             let expr: syn::Expr = input.parse()?;
-- 
2.43.0


From 704e303046ebe682925569060ca1f9b891e4aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:50 +0000
Subject: [PATCH 15/26] fix: Debug can be used in objects with GenericErrors

---
 nom-derive-impl/src/gen/structs.rs |  5 +++++
 nom-derive-impl/src/parsertree.rs  | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 0eafc1a..8bf88d3 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -185,6 +185,11 @@ fn add_extra_where_predicates(
                 }
             }
         }
+        // messages contain the error
+        if parser_tree.parsers.iter().any(|p| p.item.expr.has_debug()) {
+            let wh: WherePredicate = parse_quote! {#err: core::fmt::Debug};
+            v.push(wh)
+        }
         if !v.is_empty() {
             Some(v)
         } else {
diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index be9ef22..5a46d69 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -120,6 +120,21 @@ impl ParserExpr {
             _ => None,
         }
     }
+
+    /// True if this parser, or one it is made of, prints debug messages
+    pub fn has_debug(&self) -> bool {
+        match self {
+            ParserExpr::DbgDmp(_, _) => true,
+            ParserExpr::Complete(expr)
+            | ParserExpr::Cond(expr, _)
+            | ParserExpr::Count(expr, _)
+            | ParserExpr::Into(expr)
+            | ParserExpr::LengthCount(expr, _)
+            | ParserExpr::Map(expr, _)
+            | ParserExpr::Verify(expr, _, _) => expr.has_debug(),
+            _ => false,
+        }
+    }
 }
 
 impl ToTokens for ParserExpr {
-- 
2.43.0


From b18295293734de3f61335abe3b8f20ecc306bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:15 +0000
Subject: [PATCH 16/26] fix: bounds on the error type of objects with ExtraArgs
 or Selector belong to the functions

---
 nom-derive-impl/src/gen/generator.rs | 53 ++++++++++++++++++----------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 0bead90..8714846 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -28,12 +28,35 @@ pub(crate) trait Generator {
 
     fn config(&self) -> &Config;
 
+    /// Predicates of the where clause for the types and errors used by the parser
+    fn parser_where_predicates(&self) -> Vec<WherePredicate> {
+        let lft = Lifetime::new(self.config().lifetime_name(), Span::call_site());
+        let ident_e = Ident::new(self.config().error_name(), Span::call_site());
+        let maybe_err = if self.config().generic_errors {
+            quote!( , #ident_e )
+        } else {
+            quote!()
+        };
+        // make sure generic parameters implement Parse
+        let mut v: Vec<WherePredicate> = self
+            .orig_generics()
+            .type_params()
+            .map(|param| {
+                let param_ident = &param.ident;
+                parse_quote! { #param_ident: Parse< &#lft [u8] #maybe_err > }
+            })
+            .collect();
+        v.extend(self.impl_where_predicates().into_iter().flatten().cloned());
+        v
+    }
+
     fn gen_fn_body(&self, endianness: ParserEndianness) -> Result<TokenStream>;
 
     fn gen_parse_be(&self) -> Result<TokenStream> {
         let fn_decl = gen_fn_decl(
             ParserEndianness::BigEndian,
             self.extra_args(),
+            &self.parser_where_predicates(),
             self.config(),
         );
         if self.has_impl_for_endianness(ParserEndianness::BigEndian) {
@@ -61,6 +84,7 @@ pub(crate) trait Generator {
         let fn_decl = gen_fn_decl(
             ParserEndianness::LittleEndian,
             self.extra_args(),
+            &self.parser_where_predicates(),
             self.config(),
         );
         if self.has_impl_for_endianness(ParserEndianness::LittleEndian) {
@@ -101,11 +125,13 @@ pub(crate) trait Generator {
         };
         let tokens_parse = {
             let (fn_generics, where_clause) = if self.config().generic_errors && special_case {
+                let parser_where_predicates = self.parser_where_predicates();
                 (
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
                         #ident_e: core::fmt::Debug,
+                        #(#parser_where_predicates),*
                     },
                 )
             } else {
@@ -126,12 +152,6 @@ pub(crate) trait Generator {
         let name = self.name();
         let lft = Lifetime::new(self.config().lifetime_name(), Span::call_site());
         let ident_e = Ident::new(self.config().error_name(), Span::call_site());
-        let maybe_err = if self.config().generic_errors {
-            quote!( , #ident_e )
-        } else {
-            quote!()
-        };
-
         let tokens_parse = self.gen_parse()?;
         let tokens_parse_be = self.gen_parse_be()?;
         let tokens_parse_le = self.gen_parse_le()?;
@@ -158,21 +178,14 @@ pub(crate) trait Generator {
             gen_wh.predicates.push(wh);
         };
 
-        // make sure generic parameters inplement Parse
-        for param in orig_generics.type_params() {
-            let param_ident = &param.ident;
-            let dep: WherePredicate = parse_quote! { #param_ident: Parse< &#lft [u8] #maybe_err > };
-            gen_wh.predicates.push(dep);
-        }
-        if let Some(impl_where_predicates) = self.impl_where_predicates() {
-            for wh in impl_where_predicates {
-                gen_wh.predicates.push(wh.clone());
-            }
+        // if not implementing the trait, the error type is a parameter of the functions, not of the impl
+        let special_case = self.extra_args().is_some() || self.config().selector_type().is_some();
+        if !(special_case && self.config().generic_errors) {
+            gen_wh.predicates.extend(self.parser_where_predicates());
         }
 
         // Global impl
-        let impl_tokens = if self.extra_args().is_some() || self.config().selector_type().is_some()
-        {
+        let impl_tokens = if special_case {
             // There are extra arguments, so we can't generate the Parse impl
             // Generate an equivalent implementation
             if self.config().generic_errors {
@@ -275,6 +288,7 @@ pub(crate) trait Generator {
 pub(crate) fn gen_fn_decl(
     endianness: ParserEndianness,
     extra_args: Option<&TokenStream>,
+    parser_where_predicates: &[WherePredicate],
     config: &Config,
 ) -> TokenStream {
     let parse = match endianness {
@@ -315,6 +329,9 @@ pub(crate) fn gen_fn_decl(
             fn_where_clause.predicates.push(dep);
             let dep: WherePredicate = parse_quote! { #ident_e: core::fmt::Debug };
             fn_where_clause.predicates.push(dep);
+            fn_where_clause
+                .predicates
+                .extend(parser_where_predicates.iter().cloned());
             // add error type to function generics
             fn_generics = Some(quote!(<#ident_e>));
         }
-- 
2.43.0


From 3bff64fa3be7d8fda13ba9f19bfd5b69b6a88ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:35 +0000
Subject: [PATCH 17/26] fix: bounds on lifetime parameters ('a: 'b) are
 accepted

---
 nom-derive-impl/src/gen/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 8714846..452818c 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -171,7 +171,7 @@ pub(crate) trait Generator {
         } else {
             parse_quote!(#where_clause)
         };
-        let lfts: Vec<_> = orig_generics.lifetimes().collect();
+        let lfts: Vec<_> = orig_generics.lifetimes().map(|l| &l.lifetime).collect();
         if !lfts.is_empty() {
             // input slice must outlive all lifetimes from Self
             let wh: WherePredicate = parse_quote! { #lft: #(#lfts)+* };
-- 
2.43.0


From 81083dee69d5ee79ff7380a22c2eb0e19422e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:09 +0000
Subject: [PATCH 18/26] fix: a Selector type written as a string can be any
 type

---
 nom-derive-impl/src/meta/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 51a3c9a..82cd29e 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -5,7 +5,7 @@ use quote::ToTokens;
 use syn::parse::{Parse, ParseStream};
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
-use syn::{token, Expr, ExprLit, FnArg, Ident, Lit, Meta, Pat, Stmt, Token};
+use syn::{token, Expr, ExprLit, FnArg, Ident, Lit, Meta, Pat, Stmt, Token, Type};
 
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub enum MetaAttrType {
@@ -236,7 +236,9 @@ impl TryFrom<&'_ Meta> for MetaAttr {
                     quote! { #fields }
                 }
                 MetaAttrType::PreExec | MetaAttrType::PostExec => parse_meta_content::<Stmt>(meta)?,
-                MetaAttrType::Selector => parse_meta_content::<PatternAndGuard>(meta)?,
+                // the selector is a pattern for variants, and a type for enums
+                MetaAttrType::Selector => parse_meta_content::<PatternAndGuard>(meta)
+                    .or_else(|e| parse_meta_content::<Type>(meta).map_err(|_| e))?,
                 _ => parse_meta_content::<Expr>(meta)?,
             };
             Some(token_stream)
-- 
2.43.0


From 0a10390d250881e2bb3c955b48b91e006abf84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:28 +0000
Subject: [PATCH 19/26] fix: arguments of attributes which take none are
 rejected, not ignored

---
 nom-derive-impl/src/meta/attr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 82cd29e..d956359 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -243,6 +243,8 @@ impl TryFrom<&'_ Meta> for MetaAttr {
             };
             Some(token_stream)
         } else {
+            // an argument would be ignored
+            meta.require_path_only()?;
             None
         };
 
-- 
2.43.0


From b60de36fda9c89812aedaf7255885ad6a3a03ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:52 +0000
Subject: [PATCH 20/26] fix: Ignore on arrays of Option or Vec uses the default
 value of the array

---
 nom-derive-impl/src/structs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 2eb59ac..6e56cf5 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -115,7 +115,11 @@ pub(crate) fn get_type_first_ident(ty: &Type) -> Result<String> {
 }
 
 fn get_type_default(ty: &Type) -> Result<ParserExpr> {
-    let ident_s = get_type_first_ident(ty)?;
+    // only the type itself matters: the default value of `[Option<u8>; 2]` is not `None`
+    let ident_s = match ty {
+        Type::Path(_) => get_type_first_ident(ty)?,
+        _ => String::new(),
+    };
     let default = match ident_s.as_ref() {
         // "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" => {
         //     "0".to_string()
-- 
2.43.0


From 01905a3b716e4f9b6d4cfee017f5d7619ca0e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:57 +0000
Subject: [PATCH 21/26] fix: field types given by macros (macro_rules
 fragments) are accepted

---
 nom-derive-impl/src/structs.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 6e56cf5..9c184c1 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -66,7 +66,7 @@ fn get_type_parser(ty: &Type, meta_list: &[MetaAttr], config: &Config) -> Result
 }
 
 fn get_item_subtype_parser(ty: &Type, expected: &str, attr: &str) -> Result<TokenStream> {
-    if let Type::Path(typepath) = ty {
+    if let Type::Path(typepath) = ungroup(ty) {
         let path = &typepath.path;
         if path.segments.len() != 1 {
             return Err(Error::new(
@@ -93,7 +93,7 @@ fn get_item_subtype_parser(ty: &Type, expected: &str, attr: &str) -> Result<Toke
 }
 
 pub(crate) fn get_type_first_ident(ty: &Type) -> Result<String> {
-    match ty {
+    match ungroup(ty) {
         Type::Path(typepath) => {
             let path = &typepath.path;
             if path.segments.len() != 1 {
@@ -114,9 +114,18 @@ pub(crate) fn get_type_first_ident(ty: &Type) -> Result<String> {
     }
 }
 
+/// Types given by macros (`$t:ty`) are in an invisible group
+fn ungroup(ty: &Type) -> &Type {
+    match ty {
+        Type::Group(group) => ungroup(&group.elem),
+        Type::Paren(paren) => ungroup(&paren.elem),
+        _ => ty,
+    }
+}
+
 fn get_type_default(ty: &Type) -> Result<ParserExpr> {
     // only the type itself matters: the default value of `[Option<u8>; 2]` is not `None`
-    let ident_s = match ty {
+    let ident_s = match ungroup(ty) {
         Type::Path(_) => get_type_first_ident(ty)?,
         _ => String::new(),
     };
-- 
2.43.0


From 0948d2baaba609ec5c647b38f65968b2b9ee3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:18 +0000
Subject: [PATCH 22/26] fix: selectors of variants keep their tokens: guards
 keep the grouping of expressions given by macros

---
 nom-derive-impl/src/enums.rs     | 14 +++++++++++---
 nom-derive-impl/src/gen/enums.rs |  7 +++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index 1315582..316ee4c 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -3,16 +3,24 @@ use crate::meta;
 use crate::meta::attr::{MetaAttr, MetaAttrType};
 use crate::parsertree::{ParserExpr, ParserTreeItem};
 use crate::structs::{get_pre_post_exec, parse_fields, StructParser, StructParserTree};
+use proc_macro2::TokenStream;
 use syn::spanned::Spanned;
 use syn::*;
 
 #[derive(Debug)]
 pub(crate) struct VariantParserTree {
     pub ident: syn::Ident,
-    pub selector_type: String,
+    pub selector_type: TokenStream,
     pub struct_def: StructParserTree,
 }
 
+impl VariantParserTree {
+    /// Is this the default case?
+    pub fn is_default(&self) -> bool {
+        self.selector_type.to_string() == "_"
+    }
+}
+
 pub(crate) fn parse_variant(
     variant: &syn::Variant,
     config: &mut Config,
@@ -52,10 +60,10 @@ pub(crate) fn parse_variant(
     })
 }
 
-fn get_selector(meta_list: &[MetaAttr]) -> Option<String> {
+fn get_selector(meta_list: &[MetaAttr]) -> Option<TokenStream> {
     for meta in meta_list {
         if MetaAttrType::Selector == meta.attr_type {
-            return Some(meta.arg().unwrap().to_string());
+            return meta.arg().cloned();
         }
     }
     None
diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 4dab637..ef6effd 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -151,11 +151,10 @@ impl GenEnum {
             self.variants_defs
                 .iter()
                 .map(|def| {
-                    if def.selector_type == "_" {
+                    if def.is_default() {
                         default_case_handled = true;
                     }
-                    let m: proc_macro2::TokenStream =
-                        def.selector_type.parse().expect("invalid selector value");
+                    let m = &def.selector_type;
                     let variantname = &def.ident;
                     let (idents, parser_tokens): (Vec<_>, Vec<_>) = def
                         .struct_def
@@ -210,7 +209,7 @@ impl GenEnum {
             let pos = self
                 .variants_defs
                 .iter()
-                .position(|def| def.selector_type == "_")
+                .position(|def| def.is_default())
                 .expect("default case is handled but couldn't find index");
             // keep the other variants in declaration order: the first matching arm is selected
             let default_code = variants_code.remove(pos);
-- 
2.43.0


From 8e8020306c42e8907abc1de07956f6471bca276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:46 +0000
Subject: [PATCH 23/26] fix: variables are the fields and the input as written,
 attributes of declarations made by macros can use them

---
 nom-derive-impl/src/config.rs              | 29 ++++++++------------
 nom-derive-impl/src/enums.rs               |  4 +--
 nom-derive-impl/src/gen/enums.rs           | 14 +++-------
 nom-derive-impl/src/gen/fieldless_enums.rs |  5 ++--
 nom-derive-impl/src/gen/generator.rs       |  7 +++--
 nom-derive-impl/src/gen/structs.rs         | 11 ++------
 nom-derive-impl/src/structs.rs             | 32 +++++++++++-----------
 7 files changed, 43 insertions(+), 59 deletions(-)

diff --git a/nom-derive-impl/src/config.rs b/nom-derive-impl/src/config.rs
index c722844..bbebee9 100644
--- a/nom-derive-impl/src/config.rs
+++ b/nom-derive-impl/src/config.rs
@@ -1,7 +1,8 @@
 use crate::endian::ParserEndianness;
 use crate::meta::attr::{MetaAttr, MetaAttrType};
 use proc_macro2::{Span, TokenStream};
-use syn::{spanned::Spanned, Error};
+use quote::format_ident;
+use syn::{spanned::Spanned, Error, Ident};
 
 #[derive(Debug)]
 pub struct Config {
@@ -16,8 +17,7 @@ pub struct Config {
     pub generic_errors: bool,
     selector_type: Option<TokenStream>,
     selector_name: Option<String>,
-    input_name: String,
-    orig_input_name: String,
+    input_name: Ident,
     lifetime_name: String,
     error_name: String,
 }
@@ -58,16 +58,10 @@ impl Config {
         } else {
             ParserEndianness::Unspecified
         };
-        let input_name = l
-            .iter()
-            .find_map(|m| {
-                if m.is_type(MetaAttrType::InputName) {
-                    Some(m.arg().unwrap().to_string())
-                } else {
-                    None
-                }
-            })
-            .unwrap_or_else(|| "i".to_string());
+        let input_name = match l.iter().find(|m| m.is_type(MetaAttrType::InputName)) {
+            Some(m) => syn::parse2(m.arg().unwrap().clone())?,
+            None => Ident::new("i", Span::call_site()),
+        };
         let selector_type = l.iter().find_map(|m| {
             if m.is_type(MetaAttrType::Selector) {
                 Some(m.arg().unwrap().clone())
@@ -89,7 +83,6 @@ impl Config {
             generic_errors,
             selector_type,
             selector_name,
-            orig_input_name: "orig_".to_string() + &input_name,
             lifetime_name: String::from("'nom"),
             error_name: String::from("NomErr"),
             input_name,
@@ -107,13 +100,13 @@ impl Config {
     }
 
     #[inline]
-    pub fn input_name(&self) -> &str {
-        &self.input_name
+    pub fn input_ident(&self) -> Ident {
+        self.input_name.clone()
     }
 
     #[inline]
-    pub fn orig_input_name(&self) -> &str {
-        &self.orig_input_name
+    pub fn orig_input_ident(&self) -> Ident {
+        format_ident!("orig_{}", self.input_name)
     }
 
     #[inline]
diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index 316ee4c..153f5d6 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -3,7 +3,7 @@ use crate::meta;
 use crate::meta::attr::{MetaAttr, MetaAttrType};
 use crate::parsertree::{ParserExpr, ParserTreeItem};
 use crate::structs::{get_pre_post_exec, parse_fields, StructParser, StructParserTree};
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use syn::spanned::Spanned;
 use syn::*;
 
@@ -49,7 +49,7 @@ pub(crate) fn parse_variant(
             p = p.complete();
         }
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
-        let sp = StructParser::new("_".to_string(), item, pre, post);
+        let sp = StructParser::new(Ident::new("_", Span::call_site()), item, pre, post);
         struct_def.parsers.push(sp);
     }
     // discriminant ?
diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index ef6effd..e153f26 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -1,5 +1,4 @@
 use proc_macro2::Ident;
-use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use syn::*;
 
@@ -64,8 +63,8 @@ impl Generator for GenEnum {
     }
 
     fn gen_fn_body(&self, endianness: ParserEndianness) -> Result<TokenStream> {
-        let orig_input = Ident::new(self.config.orig_input_name(), Span::call_site());
-        let input = Ident::new(self.config.input_name(), Span::call_site());
+        let orig_input = self.config.orig_input_ident();
+        let input = self.config.input_ident();
         let (tl_pre, tl_post) = (&self.tl_pre, &self.tl_post);
         // generate body
         let (default_case_handled, variants_code) = self.gen_variants(endianness)?;
@@ -145,7 +144,7 @@ impl GenEnum {
     /// Returns a boolean indicating if default case was handled, and the list of tokens for each variant
     fn gen_variants(&self, endianness: ParserEndianness) -> Result<(bool, Vec<TokenStream>)> {
         let name = &self.name;
-        let input = syn::Ident::new(self.config.input_name(), Span::call_site());
+        let input = self.config.input_ident();
         let mut default_case_handled = false;
         let mut variants_code: Vec<_> = {
             self.variants_defs
@@ -161,12 +160,7 @@ impl GenEnum {
                         .parsers
                         .iter()
                         .map(|sp| {
-                            let id = if sp.name.starts_with("r#") {
-                                // raw identifier: r#type
-                                syn::Ident::new_raw(&sp.name[2..], Span::call_site())
-                            } else {
-                                syn::Ident::new(&sp.name, Span::call_site())
-                            };
+                            let id = &sp.name;
                             // set current endianness for functions that do not specify it
                             let item = sp.item.with_endianness(endianness);
                             (id, item)
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 428bf19..792b1fa 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -1,5 +1,4 @@
 use proc_macro2::Ident;
-use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use syn::*;
 
@@ -66,8 +65,8 @@ impl Generator for GenFieldlessEnum {
     }
 
     fn gen_fn_body(&self, endianness: ParserEndianness) -> Result<TokenStream> {
-        let orig_input = Ident::new(self.config.orig_input_name(), Span::call_site());
-        let input = Ident::new(self.config.input_name(), Span::call_site());
+        let orig_input = self.config.orig_input_ident();
+        let input = self.config.input_ident();
         let (tl_pre, tl_post) = (&self.tl_pre, &self.tl_post);
         let variants_code = &self.variants_code;
         let parser = &self.repr_parser.with_endianness(endianness);
diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 452818c..c7a969f 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -198,6 +198,8 @@ pub(crate) trait Generator {
                 // gen_impl.params.push(GenericParam::Type(param_e));
             }
             quote! {
+                // names of variables are those of fields, lints on them are reported there
+                #[allow(non_snake_case)]
                 impl #gen_impl #name #ty_generics #gen_wh {
                     #tokens_parse_be
                     #tokens_parse_le
@@ -216,6 +218,7 @@ pub(crate) trait Generator {
                 quote! { nom::error::Error<&#lft [u8]> }
             };
             quote! {
+                    #[allow(non_snake_case)]
                     impl #gen_impl nom_derive::Parse<& #lft [u8], #error> for #name #ty_generics #gen_wh {
                         #tokens_parse_be
                         #tokens_parse_le
@@ -256,7 +259,7 @@ pub(crate) trait Generator {
 
     fn get_call_args(&self) -> TokenStream {
         let mut call_args: Punctuated<_, Token![,]> = Punctuated::new();
-        let orig_input = Ident::new(self.config().orig_input_name(), Span::call_site());
+        let orig_input = self.config().orig_input_ident();
         call_args.push(orig_input);
         // selector, if present
         if let Some(s) = self.config().selector_name() {
@@ -358,7 +361,7 @@ pub(crate) fn get_fn_args(
     extra_args: Option<&TokenStream>,
     config: &Config,
 ) -> Punctuated<FnArg, Comma> {
-    let orig_input = Ident::new(config.orig_input_name(), Span::call_site());
+    let orig_input = config.orig_input_ident();
     // get lifetimes
     let lft = Lifetime::new(config.lifetime_name(), Span::call_site());
 
diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 8bf88d3..975ad35 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -66,8 +66,8 @@ impl Generator for GenStruct {
     fn gen_fn_body(&self, endianness: ParserEndianness) -> Result<TokenStream> {
         let name = &self.name;
         let (tl_pre, tl_post) = (&self.tl_pre, &self.tl_post);
-        let input = syn::Ident::new(self.config.input_name(), Span::call_site());
-        let orig_input = syn::Ident::new(self.config.orig_input_name(), Span::call_site());
+        let input = self.config.input_ident();
+        let orig_input = self.config.orig_input_ident();
 
         // prepare tokens
         let (idents, parser_tokens): (Vec<_>, Vec<_>) = self
@@ -75,12 +75,7 @@ impl Generator for GenStruct {
             .parsers
             .iter()
             .map(|sp| {
-                let id = if sp.name.starts_with("r#") {
-                    // raw identifier: r#type
-                    syn::Ident::new_raw(&sp.name[2..], Span::call_site())
-                } else {
-                    syn::Ident::new(&sp.name, Span::call_site())
-                };
+                let id = &sp.name;
                 // set current endianness for functions that do not specify it
                 let item = sp.item.with_endianness(endianness);
                 (id, item)
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 9c184c1..a83f750 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -10,7 +10,7 @@ use syn::*;
 
 #[derive(Debug)]
 pub(crate) struct StructParser {
-    pub name: String,
+    pub name: Ident,
     pub item: ParserTreeItem,
     pub pre_exec: Option<TokenStream>,
     pub post_exec: Option<TokenStream>,
@@ -18,7 +18,7 @@ pub(crate) struct StructParser {
 
 impl StructParser {
     pub fn new(
-        name: String,
+        name: Ident,
         item: ParserTreeItem,
         pre_exec: Option<TokenStream>,
         post_exec: Option<TokenStream>,
@@ -296,8 +296,8 @@ fn quote_take_fn(config: &Config) -> TokenStream {
 fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let take = quote_take_fn(config);
     let align_value = quote_usize(align);
-    let input = syn::Ident::new(config.input_name(), align.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
+    let input = config.input_ident();
+    let orig_input = config.orig_input_ident();
     quote! {
         let (#input, _) = {
             // evaluate argument first, it must not see the variables defined here
@@ -314,8 +314,8 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
 
 // like quote_skip, but offset is signed
 fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), offset.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let input = config.input_ident();
+    let orig_input = config.orig_input_ident();
     let new_offset = quote! {
         // evaluate argument first, it must not see the variables defined here
         let offset = (#offset) as i128;
@@ -327,8 +327,8 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
 
 // like quote_move, with absolute value as offset
 fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), offset.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let input = config.input_ident();
+    let orig_input = config.orig_input_ident();
     let new_offset = quote! {
         let new_offset = (#offset) as i128;
     };
@@ -369,14 +369,14 @@ fn quote_seek(
 fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let take = quote_take_fn(config);
     let skip_value = quote_usize(skip);
-    let input = syn::Ident::new(config.input_name(), skip.span());
+    let input = config.input_ident();
     quote! {
         let (#input, _) = #take(#skip_value)(#input)?;
     }
 }
 
 fn quote_error_if(cond: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), cond.span());
+    let input = config.input_ident();
     quote! {
         if #cond {
             return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
@@ -434,7 +434,7 @@ pub(crate) fn get_pre_post_exec(
                 tk_pre.extend(qq);
             }
             MetaAttrType::Exact => {
-                let input = syn::Ident::new(config.input_name(), m.span());
+                let input = config.input_ident();
                 let cond = quote! { !#input.is_empty() };
                 let qq = quote_error_if(&cond, config);
                 tk_post.extend(qq);
@@ -480,10 +480,10 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
     // a `SetEndian` attribute affects the following fields, but not what comes after these fields
     let object_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
-        let ident_str = if let Some(s) = field.ident.as_ref() {
-            s.to_string()
-        } else {
-            format!("_{}", idx)
+        // variables are the fields, as written (also when the names are given by a macro)
+        let name = match &field.ident {
+            Some(ident) => ident.clone(),
+            None => Ident::new(&format!("_{}", idx), Span::call_site()),
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
@@ -516,7 +516,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         // add pre and post code (also takes care of alignment)
         let (pre, post) = get_pre_post_exec(&meta_list, config);
         let item = ParserTreeItem::new(field.ident.clone(), p);
-        let sp = StructParser::new(ident_str, item, pre, post);
+        let sp = StructParser::new(name, item, pre, post);
         parsers.push(sp);
     }
     config.object_endianness = object_endianness;
-- 
2.43.0


From d3c1b46c2494f76f0fcfdff31b515c8e2b7dba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:46 +0000
Subject: [PATCH 24/26] fix: literals given by macros are accepted as arguments
 of several attributes

---
 nom-derive-impl/src/meta/attr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index d956359..47f3ea5 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -283,10 +283,15 @@ where
             Ok(meta_list.tokens.clone())
         }
         Meta::NameValue(meta_name_value) => {
+            let mut value = &meta_name_value.value;
+            // literals given by macros (`$l:literal`) can be in an invisible group
+            while let Expr::Group(group) = value {
+                value = &group.expr;
+            }
             if let Expr::Lit(ExprLit {
                 lit: Lit::Str(lit_str),
                 ..
-            }) = &meta_name_value.value
+            }) = value
             {
                 let p: P = lit_str.parse()?;
                 Ok(quote! { #p })
-- 
2.43.0


From 6e901535aefaaa2b0ec0a5ef35952c9eaae13656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:03 +0000
Subject: [PATCH 25/26] fix: arguments made of expressions given by macros keep
 their grouping

---
 nom-derive-impl/src/structs.rs | 38 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index a83f750..fcdb609 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -3,7 +3,7 @@ use crate::endian::*;
 use crate::meta;
 use crate::meta::attr::{MetaAttr, MetaAttrType};
 use crate::parsertree::*;
-use proc_macro2::{Span, TokenStream, TokenTree};
+use proc_macro2::{Span, TokenStream};
 use quote::ToTokens;
 use syn::spanned::Spanned;
 use syn::*;
@@ -169,12 +169,6 @@ fn get_parser(
                 return Ok(ParserExpr::Tag(s.clone()));
             }
             MetaAttrType::Take => {
-                // if meta.arg is string, parse content
-                let ts = meta.arg().unwrap();
-                if let Some(TokenTree::Literal(_)) = ts.clone().into_iter().next() {
-                    let ts = syn::parse2::<Expr>(ts.clone())?;
-                    return Ok(ParserExpr::Take(ts.to_token_stream()));
-                }
                 let s = meta.arg().unwrap();
                 return Ok(ParserExpr::Take(s.clone()));
             }
@@ -239,12 +233,6 @@ fn get_parser(
             }
             MetaAttrType::Map => {
                 let expr = get_parser(ident, ty, sub_meta_list, meta_list, config)?;
-                // if meta.arg is string, parse content
-                let ts_arg = meta.arg().unwrap();
-                if let Some(TokenTree::Literal(_)) = ts_arg.clone().into_iter().next() {
-                    let ts_arg = syn::parse2::<Expr>(ts_arg.clone())?;
-                    return Ok(ParserExpr::Map(Box::new(expr), ts_arg.to_token_stream()));
-                }
                 let ts_arg = meta.arg().unwrap();
                 return Ok(ParserExpr::Map(Box::new(expr), ts_arg.clone()));
             }
@@ -390,60 +378,62 @@ pub(crate) fn get_pre_post_exec(
 ) -> (Option<TokenStream>, Option<TokenStream>) {
     let mut tk_pre = proc_macro2::TokenStream::new();
     let mut tk_post = proc_macro2::TokenStream::new();
+    // streams are added as a whole: the grouping of expressions given by macros would not survive
+    // the conversion to token trees
     for m in meta_list {
         match m.attr_type {
             MetaAttrType::PreExec => {
-                tk_pre.extend(m.arg().unwrap().clone());
+                tk_pre.extend(Some(m.arg().unwrap().clone()));
             }
             MetaAttrType::PostExec => {
-                tk_post.extend(m.arg().unwrap().clone());
+                tk_post.extend(Some(m.arg().unwrap().clone()));
             }
             MetaAttrType::AlignAfter => {
                 let align = m.arg().unwrap();
                 let qq = quote_align(align, config);
-                tk_post.extend(qq);
+                tk_post.extend(Some(qq));
             }
             MetaAttrType::AlignBefore => {
                 let align = m.arg().unwrap();
                 let qq = quote_align(align, config);
-                tk_pre.extend(qq);
+                tk_pre.extend(Some(qq));
             }
             MetaAttrType::SkipAfter => {
                 let skip = m.arg().unwrap();
                 let qq = quote_skip(skip, config);
-                tk_post.extend(qq);
+                tk_post.extend(Some(qq));
             }
             MetaAttrType::SkipBefore => {
                 let skip = m.arg().unwrap();
                 let qq = quote_skip(skip, config);
-                tk_pre.extend(qq);
+                tk_pre.extend(Some(qq));
             }
             MetaAttrType::Move => {
                 let offset = m.arg().unwrap();
                 let qq = quote_move(offset, config);
-                tk_pre.extend(qq);
+                tk_pre.extend(Some(qq));
             }
             MetaAttrType::MoveAbs => {
                 let offset = m.arg().unwrap();
                 let qq = quote_move_abs(offset, config);
-                tk_pre.extend(qq);
+                tk_pre.extend(Some(qq));
             }
             MetaAttrType::ErrorIf => {
                 let cond = m.arg().unwrap();
                 let qq = quote_error_if(cond, config);
-                tk_pre.extend(qq);
+                tk_pre.extend(Some(qq));
             }
             MetaAttrType::Exact => {
                 let input = config.input_ident();
                 let cond = quote! { !#input.is_empty() };
                 let qq = quote_error_if(&cond, config);
-                tk_post.extend(qq);
+                tk_post.extend(Some(qq));
             }
             MetaAttrType::SetEndian => {
                 let val = m.arg().unwrap();
                 let qq = quote! { let __endianness = #val; };
                 // config is updated in `parse_fields`
-                tk_pre.extend(qq);
+                tk_pre.extend(Some(qq));
             }
             _ => (),
         }
-- 
2.43.0


From 1c685ed6c8a811c3f53ccf3806996433648b0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:17 +0000
Subject: [PATCH 26/26] fix: attributes named by a path are rejected with a
 diagnostic

---
 nom-derive-impl/src/meta/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 47f3ea5..9b7d738 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -223,7 +223,7 @@ impl TryFrom<&'_ Meta> for MetaAttr {
     type Error = syn::Error;
 
     fn try_from(meta: &Meta) -> std::result::Result<Self, Self::Error> {
-        let ident: Ident = meta.path().get_ident().cloned().unwrap();
+        let ident: Ident = meta.path().require_ident()?.clone();
         let attr_type =
             MetaAttrType::from_ident(&ident).unwrap_or_else(|| panic!("Wrong meta name {}", ident));
 
-- 
2.43.0

