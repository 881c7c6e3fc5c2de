From 5a75b74bc38e3b71303748375c34881dba5d1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 1/7] fix: ignore unknown bits when deserializing
 array-serialized EnumSets

Deserializing an EnumSet with the array serde representation panicked if the
input contained a bit that does not correspond to a variant, rather than
silently dropping it as documented.
---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 51c0e5a..77f8ad2 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -581,7 +581,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 )
             } else {
                 (quote! {}, quote! {
-                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array(accum))
+                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array_truncated(accum))
                 })
             };
             quote! {
-- 
2.43.0


From 391bffafc7d4d056e3f10363b622599aa0332e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 2/7] fix: make serialize_deny_unknown compile with the array
 serde representation

The generated code referred to the outer function's generic parameter and
had mismatched match arms, so no such enum could be compiled.
---
 enumset_derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 77f8ad2..86283d9 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -566,15 +566,19 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             )
                         }
                     },
                     quote! {
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
-                            Some(x) => x,
-                            None => #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                            #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
+                            #core::prelude::v1::None => #core::prelude::v1::Err(
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             ),
                         }
                     },
-- 
2.43.0


From 9444b5f583d7c4898189a7b4fb02781e614e04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 3/7] fix: make serialize_deny_unknown compile for integers
 with array storage

Enums with 65 to 128 variants, or with repr = "array", are stored as an array
but serialized as an integer. The unknown bits check compared the two.
---
 enumset_derive/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 86283d9..0bdab24 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -441,8 +441,15 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 _ => unreachable!(),
             };
             let check_unknown = if info.serialize_deny_unknown {
+                // `all_variants` is not an integer if the set is stored as an array.
+                let valid_bits = match info.internal_repr() {
+                    InternalRepr::Array(_) => quote! {
+                        <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&#all_variants)
+                    },
+                    _ => all_variants.clone(),
+                };
                 quote! {
-                    if value & !#all_variants != 0 {
+                    if value & !#valid_bits != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
                             D::Error::custom("enumset contains unknown bits")
-- 
2.43.0


From c2b515bb671843b5274bb751db4d35bf4b4d5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 4/7] fix: report a bit width of zero for enums with no
 variants

bit_width is documented to match variant_count for enums that are not sparse,
but was 1 for an empty enum.
---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 0bdab24..004bd44 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -928,7 +928,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         });
     }
 
-    let bit_width = info.max_discrim + 1;
+    let bit_width = if info.variants.is_empty() { 0 } else { info.max_discrim + 1 };
     let variant_count = info.variants.len() as u32;
     let vis = &info.vis;
     quote! {
-- 
2.43.0


From 927cc05ffb3c1f9e5f081bed818b614fa1916e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 5/7] fix: let enum_set!() name EnumSet by its path in the
 crate

`enum_set!()` expanded to `EnumSet::empty()`, which is only found where
`EnumSet` has been imported under that name.
---
 enumset/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset/src/macros.rs b/enumset/src/macros.rs
index a2bfabb..32e5489 100644
--- a/enumset/src/macros.rs
+++ b/enumset/src/macros.rs
@@ -42,7 +42,7 @@ pub mod __internal {
 #[macro_export]
 macro_rules! enum_set {
     ($(|)*) => {
-        EnumSet::empty()
+        $crate::EnumSet::empty()
     };
     ($value:path $(|)*) => {
         {
-- 
2.43.0


From c32b044b4058f40736169b8d9be5752e050f0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 6/7] fix: let the derive accept variants named `Output` and
 `Repr`

In the generated impls, `Self::Output` and `Self::Repr` are ambiguous between
the associated type and the variant, which is an error.
---
 enumset_derive/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 004bd44..b826655 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -385,35 +385,35 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             #[automatically_derived]
             impl<O: Into<#typed_enumset>> #core::ops::Sub<O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: O) -> Self::Output {
+                fn sub(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
             impl<O: Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: O) -> Self::Output {
+                fn bitand(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
             impl<O: Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: O) -> Self::Output {
+                fn bitor(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
             impl<O: Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: O) -> Self::Output {
+                fn bitxor(self, other: O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
             #[automatically_derived]
             impl #core::ops::Not for #name {
                 type Output = #typed_enumset;
-                fn not(self) -> Self::Output {
+                fn not(self) -> #typed_enumset {
                     !#enumset::EnumSet::only(self)
                 }
             }
@@ -958,7 +958,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 const CONST_HELPER_INSTANCE: __EnumSetConstHelper = __EnumSetConstHelper;
 
                 type Repr = #repr;
-                const ALL_BITS: Self::Repr = #all_variants;
+                const ALL_BITS: #repr = #all_variants;
                 const BIT_WIDTH: u32 = #bit_width;
                 const VARIANT_COUNT: u32 = #variant_count;
 
-- 
2.43.0


From da14c33ce63eaa2acd1d54c8e3e6f423a16629dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 7/7] fix: let the derive accept enums named like its own
 generics

An enum named `Into`, or `O`, `S`, `D`, `A` or `Visitor` in the serde impls,
was shadowed by the generics and helper types of the generated code.
---
 enumset_derive/src/lib.rs | 120 +++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 60 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index b826655..27d864a 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -383,31 +383,31 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     } else {
         quote! {
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::Sub<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<__O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: O) -> #typed_enumset {
-                    #enumset::EnumSet::only(self) - other.into()
+                fn sub(self, other: __O) -> #typed_enumset {
+                    #enumset::EnumSet::only(self) - #core::convert::Into::into(other)
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: O) -> #typed_enumset {
-                    #enumset::EnumSet::only(self) & other.into()
+                fn bitand(self, other: __O) -> #typed_enumset {
+                    #enumset::EnumSet::only(self) & #core::convert::Into::into(other)
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: O) -> #typed_enumset {
-                    #enumset::EnumSet::only(self) | other.into()
+                fn bitor(self, other: __O) -> #typed_enumset {
+                    #enumset::EnumSet::only(self) | #core::convert::Into::into(other)
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: O) -> #typed_enumset {
-                    #enumset::EnumSet::only(self) ^ other.into()
+                fn bitxor(self, other: __O) -> #typed_enumset {
+                    #enumset::EnumSet::only(self) ^ #core::convert::Into::into(other)
                 }
             }
             #[automatically_derived]
@@ -452,7 +452,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     if value & !#valid_bits != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
-                            D::Error::custom("enumset contains unknown bits")
+                            __D::Error::custom("enumset contains unknown bits")
                         )
                     }
                 }
@@ -460,16 +460,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 quote! {}
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     let value =
                         <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&set.__priv_repr);
                     #serde::Serialize::serialize(&value, ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
                     let value = <#serialize_repr as #serde::Deserialize>::deserialize(de)?;
                     #check_unknown
                     let value = <#repr as #enumset::__internal::EnumSetTypeRepr>::#from_fn(value);
@@ -482,9 +482,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         SerdeRepr::List => {
             let expecting_str = format!("a list of {}", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeSeq;
                     let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -492,21 +492,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     seq.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, #expecting_str)
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
@@ -515,16 +515,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__Visitor)
                 }
             }
         }
         SerdeRepr::Map => {
             let expecting_str = format!("a map from {} to bool", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeMap;
                     let mut map = ser.serialize_map(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -532,21 +532,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     map.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, #expecting_str)
                         }
-                        fn visit_map<A>(
-                            mut self, mut map: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::MapAccess<'de>
+                        fn visit_map<__A>(
+                            mut self, mut map: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::MapAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some((val, is_present)) =
@@ -559,7 +559,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_map(Visitor)
+                    de.deserialize_map(__Visitor)
                 }
             }
         }
@@ -573,7 +573,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
                                 )
                             )
@@ -583,7 +583,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
                             #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
                             #core::prelude::v1::None => #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
                                 )
                             ),
@@ -596,9 +596,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 })
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     // read the enum as an array
                     let array = set.as_array::<{ #preferred_size }>();
 
@@ -614,21 +614,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     // serialize the array
                     #serde::Serialize::serialize(&array[..end], ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, "a list of u64")
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = [0; #preferred_size];
 
@@ -648,7 +648,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #convert_array
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__Visitor)
                 }
             }
         }
-- 
2.43.0

