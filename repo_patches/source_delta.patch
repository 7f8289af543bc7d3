From 92bde99d44d7b9f703e9aa122254650f1812d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:11 +0000
Subject: [PATCH 01/31] fix: evaluate integer field defaults in the field's
 type

Literal defaults wider than 32 bits were truncated because they were passed as
'<literal> as _', and negative or const defaults on fields without a setter did
not compile.
---
 .../bitfield/features/common/generator_helper.rs    | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 18456b3..f16f253 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -143,6 +143,16 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
         .expect("Expected default value when setting field defaults")
         .to_tokens();
 
+    // Evaluate integer defaults in the field's own type. Otherwise, an unsuffixed
+    // literal would be inferred as `i32` or as the (unsigned) bitfield type.
+    let field_default_value_tokens = match field.spanned_data_type_token().data_type() {
+        DataType::Integer(integer_type) if integer_type != IntegerType::Bool => {
+            let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+            quote! { ((#field_default_value_tokens) as #field_data_type_tokens) }
+        },
+        _ => field_default_value_tokens,
+    };
+
     if field.has_setter() {
         return generate_field_setter_call_tokens(
             bitfield,
@@ -719,7 +729,8 @@ fn generate_setting_field_without_setter_tokens(
 
     quote! {
         let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - #field_bits_tokens);
-        let field_bits = #value_tokens;
+        #[allow(clippy::unnecessary_cast)]
+        let field_bits = (#value_tokens) as #bitfield_data_type_tokens;
         #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << #field_offset_tokens)) | ((field_bits & mask) << #field_offset_tokens);
     }
 }
-- 
2.43.0


From 1954cea1244f96cff7091351224566562093f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:11 +0000
Subject: [PATCH 02/31] fix: accept i128::MIN as a default value

The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
The minimum value made the macro panic.
---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index e2a82b1..05d4706 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -323,12 +323,8 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128)
-            .checked_neg()
-            .ok_or_else(|| unreachable!("The compiler won't allow a number less than -i128 exist"))
-            .expect("Expected a negative default value for negative default value checking");
-
-        if negative_default_value < negative_bits_min_value {
+        // Every 128-bit literal fits, the compiler rejects those below `i128::MIN`.
+        if bits < u128::BITS && *number > negative_bits_min_value.unsigned_abs() {
             return Err(create_user_parsing_compiler_error(
                 default_value_expr.span(),
                 format!(
-- 
2.43.0


From e6adaeb1cdaae15a0a529aa3784be6baf09c440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:10 +0000
Subject: [PATCH 03/31] fix: let the builder set fields without setters when
 new is disabled

---
 .../generating/bitfield/features/common/generator_helper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index f16f253..82160b9 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -648,8 +648,10 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-    let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-    let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+    // Name the bitfield instead of using `Self`, since the builder also uses these
+    // tokens for initializing a bitfield.
+    let field_bits_tokens = get_field_bits_tokens(bitfield, field, /* builder_caller= */ true);
+    let field_offset_tokens = get_field_offset_tokens(bitfield, field, /* builder_caller= */ true);
 
     if !bitfield.is_integer_backed() {
         if let DataType::Array {
-- 
2.43.0


From 8a9f2df9e0c736023277889f57d3759be13affc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 04/31] fix: size-check values before narrowing them to the
 bitfield type

---
 .../features/common/generator_helper.rs       | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 82160b9..7ae0f15 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -348,7 +348,8 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
 /// Generates an overflow check for unsigned/custom fields.
 fn generate_bit_size_check_tokens() -> TokenStream {
     quote! {
-        if bits > mask {
+        #[allow(clippy::unnecessary_cast)]
+        if (bits as u128) > (mask as u128) {
             return Err("Value is too big to fit within the field bits.");
         }
     }
@@ -425,12 +426,12 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
             });
 
             if bitfield.is_integer_backed() {
-                let casting_bits_to_bitfield_data_type_tokens =
+                let widening_bits_tokens =
                     (bits_source == BitsSource::IntegerVariable && cast_bits).then(|| {
                         if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
                             quote! {
                                 #[allow(clippy::unnecessary_cast)]
-                                let bits = bits.into_bits() as #bitfield_data_type_tokens;
+                                let bits = bits.into_bits() as u128;
                             }
                         } else if let DataType::Array {
                             length,
@@ -441,11 +442,10 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                             quote! {
                                 let bits = {
                                     let __arr = bits;
-                                    let mut __v: #bitfield_data_type_tokens = 0;
+                                    let mut __v: u128 = 0;
                                     let mut __i: usize = 0;
                                     while __i < #pack_len {
-                                        __v |= (__arr[__i] as #bitfield_data_type_tokens)
-                                            << (__i * 8);
+                                        __v |= (__arr[__i] as u128) << (__i * 8);
                                         __i += 1;
                                     }
                                     __v
@@ -453,7 +453,8 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                             }
                         } else {
                             quote! {
-                                let bits = bits as #bitfield_data_type_tokens;
+                                #[allow(clippy::unnecessary_cast)]
+                                let bits = bits as u128;
                             }
                         }
                     });
@@ -462,7 +463,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                     && cast_bits
                 {
                     quote! {
-                        let value = #invert_value_tokens #bits_source_tokens & mask;
+                        let value = #invert_value_tokens(#bits_source_tokens as #bitfield_data_type_tokens) & mask;
                     }
                 } else {
                     quote! {
@@ -472,7 +473,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
 
                 quote! {
                     let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - #field_bits_tokens);
-                    #casting_bits_to_bitfield_data_type_tokens
+                    #widening_bits_tokens
                     #value_extraction_tokens
                 }
             } else if bits_source == BitsSource::IntegerVariable && cast_bits {
-- 
2.43.0


From 4315d177a8cbf7554c323369f7bb7a18635cae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 05/31] fix: sign-extend the inverted value of signed fields

---
 .../generating/bitfield/features/invert_bit_ops_feature.rs  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1d087d4..828387e 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -6,8 +6,8 @@ use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, ProtectionType,
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
-    generate_protected_bits_mask_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
+    get_bits_or_bytes_term, get_field_unit_terms, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -156,6 +156,7 @@ impl InvertBitOpsFeature {
                 let field_inverted_ident_tokens =
                     format_ident!("{}_inverted", field.name(), span = field.name_ident().span()).to_token_stream();
                 let documentation = Self::get_invert_field_documentation(bitfield, field);
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
                 let value_to_field_tokens = Self::generate_value_to_field_tokens(bitfield, field);
                 let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 let extract_field_bits_from_source_into_variable_tokens =
@@ -172,6 +173,7 @@ impl InvertBitOpsFeature {
                     #visibility_tokens #function_modifier_tokens fn #field_inverted_ident_tokens(&self) -> #field_data_type_tokens {
                         let this = self;
                         #extract_field_bits_from_source_into_variable_tokens
+                        #sign_extend_tokens
                         #value_to_field_tokens
                     }
                 }
-- 
2.43.0


From b199789e7949e8ab22450f17ca502d91fea2e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 06/31] fix: print signed fields with their sign in Debug

---
 .../src/generating/bitfield/features/debug_trait_feature.rs   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
index ca46d0d..90aa3f2 100644
--- a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
@@ -4,6 +4,7 @@ use quote::quote;
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
 use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, generate_extract_field_bits_from_source_into_variable_tokens,
+    generate_sign_extend_bit_operation_tokens,
 };
 use crate::parsing::bitfields::bitfield::Bitfield;
 
@@ -63,8 +64,11 @@ impl DebugTraitFeature {
                         /* builder_caller= */ false,
                     );
 
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
+
                 quote! {
                     #extract_field_bits_from_bitfield_into_variable
+                    #sign_extend_tokens
                     debug.field(#field_name, &value);
                 }
             })
-- 
2.43.0


From f234fd55dac950e158402ce3a9396fc07b2b562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 07/31] fix: derive Copy through core so bitfields compile in
 no_std crates

---
 .../src/generating/bitfield/features/bitfield_struct_feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index 1a99875..f88075e 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -87,7 +87,7 @@ impl BitfieldStructFeatureGenerator {
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(std::marker::Copy, core::clone::Clone)]
+                    #[derive(core::marker::Copy, core::clone::Clone)]
                 });
             }
         }
-- 
2.43.0


From 9b23fae5cd41c51d2bf2e722fd93d18b2416744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:34 +0000
Subject: [PATCH 08/31] fix: honour the write_bit_ops argument

---
 .../src/generating/bitfield/features/write_bit_ops_feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
index 3421538..bedad8c 100644
--- a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
@@ -23,8 +23,8 @@ impl Feature for WriteBitOpsFeature {
     fn enabled(&self, bitfield: &Bitfield) -> bool {
         is_bit_ops_feature_enabled(
             bitfield,
-            bitfield.arguments().generate_bit_ops(),
-            bitfield.arguments().generate_set_get_bit_ops(),
+            bitfield.arguments().generate_write_bit_ops(),
+            bitfield.arguments().user_set_generate_write_bit_ops(),
         )
     }
 
-- 
2.43.0


From 2e30442f9536f02b7ebd744ceafec8fe3113cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:34 +0000
Subject: [PATCH 09/31] fix: reject bit ranges whose end overflows instead of
 wrapping

---
 .../src/generating/bitfield/features/set_get_bit_ops_feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 4d4badc..3d83a3c 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -475,7 +475,7 @@ impl SetGetBitOpsFeature {
         let guard_return_tokens = Self::get_guard_return_tokens(bitfield, guard_return_type);
 
         quote! {
-            if offset + length > #bitfield_data_type_bits_tokens {
+            if length > #bitfield_data_type_bits_tokens - offset {
                 #guard_return_tokens
             }
         }
-- 
2.43.0


From 073504588cde45e172bba59fd7dbc76e072b5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:34 +0000
Subject: [PATCH 10/31] fix: treat empty bit ranges as empty instead of
 overflowing a shift

---
 .../features/set_get_bit_ops_feature.rs       | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 3d83a3c..de906f8 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -90,6 +90,7 @@ impl SetGetBitOpsFeature {
         );
         let protected_mask =
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::ReadOnly);
+        let range_mask = Self::generate_range_mask_tokens(bitfield);
 
         if bitfield.is_integer_backed() {
             quote! {
@@ -130,7 +131,8 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_tokens
                     #check_offset_and_length_bitfield_range_tokens
-                    let range_mask = (#bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)) << offset;
+                    #range_mask
+                    let range_mask = mask << offset;
                     #protected_mask
                     let writable_mask = range_mask & !protected_mask;
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !writable_mask) | ((value << offset) & writable_mask);
@@ -145,7 +147,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    #range_mask
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -300,6 +302,7 @@ impl SetGetBitOpsFeature {
         );
         let protected_mask =
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::WriteOnly);
+        let range_mask = Self::generate_range_mask_tokens(bitfield);
         let array_len = bitfield.spanned_data_type_token().array_length().unwrap_or_default();
 
         if bitfield.is_integer_backed() {
@@ -326,7 +329,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_return_zero_tokens
                     #check_offset_and_length_bitfield_range_return_zero_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    #range_mask
                     #protected_mask
                     let shifted_protected_mask = (protected_mask >> offset) & mask;
                     let readable_mask = mask & !shifted_protected_mask;
@@ -341,7 +344,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    #range_mask
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -435,6 +438,20 @@ impl SetGetBitOpsFeature {
         }
     }
 
+    /// Generates the mask of a range's length, where an empty range has an empty
+    /// mask.
+    fn generate_range_mask_tokens(bitfield: &Bitfield) -> TokenStream {
+        let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+
+        quote! {
+            let mask = if length == 0 {
+                0
+            } else {
+                #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)
+            };
+        }
+    }
+
     fn generate_check_offset_bitfield_range_tokens(
         bitfield: &Bitfield,
         guard_return_type: GuardReturnType,
-- 
2.43.0


From f5607727762307ac4f9dffd530f1db5bb5c25cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 11/31] fix: reject values too large for the length in checked
 range setters

---
 .../bitfield/features/set_get_bit_ops_feature.rs      | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index de906f8..2d0bae8 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -91,6 +91,7 @@ impl SetGetBitOpsFeature {
         let protected_mask =
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::ReadOnly);
         let range_mask = Self::generate_range_mask_tokens(bitfield);
+        let total_bits = bitfield.spanned_data_type_token().data_type().bit_size();
 
         if bitfield.is_integer_backed() {
             quote! {
@@ -148,6 +149,9 @@ impl SetGetBitOpsFeature {
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
                     #range_mask
+                    if value > mask {
+                        return Err("The value is too large for the length.");
+                    }
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -228,6 +232,13 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
+                    let mut i = length;
+                    while i < #total_bits {
+                        if (value[(i / 8) as usize] >> (i % 8)) & 1 != 0 {
+                            return Err("The value is too large for the length.");
+                        }
+                        i += 1;
+                    }
                     #protected_mask
                     let mut i = 0u32;
                     while i < length {
-- 
2.43.0


From ff59a703a5475fccb420377777baeadb88cdcbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:04 +0000
Subject: [PATCH 12/31] fix: keep the partial last byte of array fields in
 integer bitfields

---
 .../generating/bitfield/features/common/generator_helper.rs  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 7ae0f15..32a36a2 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -434,11 +434,10 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                                 let bits = bits.into_bits() as u128;
                             }
                         } else if let DataType::Array {
-                            length,
+                            ..
                         } = field.spanned_data_type_token().data_type()
                         {
-                            let len = length as usize;
-                            let pack_len = (field.bits() as usize / 8).min(len);
+                            let pack_len = field.bits().div_ceil(8) as usize;
                             quote! {
                                 let bits = {
                                     let __arr = bits;
-- 
2.43.0


From 57da4300fb334bc04d92a916fd3900cc9d9e2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:04 +0000
Subject: [PATCH 13/31] fix: size-check array fields in checked setters

---
 .../features/common/generator_helper.rs       | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 32a36a2..e4f0c73 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -254,8 +254,15 @@ pub fn generate_setting_field_from_variable_tokens(
         return generate_builder_direct_setter_call_tokens(field, check_bit_size);
     }
 
-    let pre_extract_check_tokens = (!using_setter && check_bit_size && is_signed_integer)
-        .then(|| generate_signed_bit_size_check_tokens(field));
+    let pre_extract_check_tokens = (!using_setter && check_bit_size).then(|| {
+        if is_signed_integer {
+            generate_signed_bit_size_check_tokens(field)
+        } else if is_array_field {
+            generate_array_bit_size_check_tokens(field)
+        } else {
+            quote! {}
+        }
+    });
 
     let post_extract_check_tokens = (!using_setter
         && check_bit_size
@@ -355,6 +362,27 @@ fn generate_bit_size_check_tokens() -> TokenStream {
     }
 }
 
+/// Generates an overflow check for array fields, the bits past the field bits
+/// must be clear.
+fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_bits = field.bits();
+    let type_bits = field.spanned_data_type_token().data_type().bit_size();
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    quote! {
+        let mut __i: u32 = #field_bits;
+        while __i < #type_bits {
+            if (bits[(__i / 8) as usize] >> (__i % 8)) & 1 != 0 {
+                return Err("Value is too big to fit within the field bits.");
+            }
+            __i += 1;
+        }
+    }
+}
+
 /// Generates an overflow check for signed integer fields.
 /// Must run before `bits` is reinterpreted as unsigned.
 /// Skipped when the field's bit-width equals the full type width.
-- 
2.43.0


From 2f9149d30c806b4c72ee890a6ac9f5118166b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:04 +0000
Subject: [PATCH 14/31] fix: support array fields longer than 16 bytes in
 integer bitfields

---
 .../generating/bitfield/features/common/generator_helper.rs | 6 +++++-
 .../generating/bitfield/features/field_getters_feature.rs   | 6 ++++--
 .../generating/bitfield/features/invert_bit_ops_feature.rs  | 5 +++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index e4f0c73..1f261a7 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -6,6 +6,9 @@ use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
 use crate::parsing::common::spanned_data_type::{DataType, IntegerType};
 use crate::parsing::common::to_tokens::ToTokens;
 
+/// The number of bytes in the largest integer bitfield.
+pub const MAX_INTEGER_BITFIELD_BYTES: usize = 16;
+
 /// Represents the source of the bits being set on a field
 #[derive(Copy, Clone, PartialEq, Eq)]
 pub enum BitsSource {
@@ -644,13 +647,14 @@ fn generate_field_setter_call_tokens(
             length,
         } => {
             let len = length as usize;
+            let unpack_len = len.min(MAX_INTEGER_BITFIELD_BYTES);
             if bitfield.is_integer_backed() {
                 quote! {
                     #bitfield_variable_reference.#field_setter_ident_tokens({
                         let __int_val = (#value_tokens) as u128;
                         let mut __arr = [0u8; #len];
                         let mut __i: usize = 0;
-                        while __i < #len {
+                        while __i < #unpack_len {
                             __arr[__i] = ((__int_val >> (__i * 8)) & 0xFF) as u8;
                             __i += 1;
                         }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 4051c24..7b2eb40 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -3,7 +3,8 @@ use quote::quote;
 
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
 use crate::generating::bitfield::features::common::generator_helper::{
-    BitsSource, generate_extract_field_bits_from_source_into_variable_tokens,
+    BitsSource, MAX_INTEGER_BITFIELD_BYTES,
+    generate_extract_field_bits_from_source_into_variable_tokens,
     generate_sign_extend_bit_operation_tokens, get_field_unit_terms, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
@@ -94,13 +95,14 @@ impl FieldGettersFeature {
                 length,
             } => {
                 let len = length as usize;
+                let unpack_len = len.min(MAX_INTEGER_BITFIELD_BYTES);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 828387e..9327c2f 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -3,7 +3,7 @@ use quote::{ToTokens as QuoteToTokens, format_ident, quote};
 
 use crate::generating::bitfield::feature::{Feature, FeaturePosition, is_bit_ops_feature_enabled};
 use crate::generating::bitfield::features::common::generator_helper::{
-    BitsSource, ProtectionType,
+    BitsSource, MAX_INTEGER_BITFIELD_BYTES, ProtectionType,
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
     generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
@@ -196,13 +196,14 @@ impl InvertBitOpsFeature {
                 length,
             } => {
                 let len = length as usize;
+                let unpack_len = len.min(MAX_INTEGER_BITFIELD_BYTES);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
-- 
2.43.0


From c69793f3e24e702974b8ca1d16395d5c7e4dea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 15/31] fix: reject array fields with more bits than their type
 holds

---
 .../src/parsing/bitfields/bitfield_parser.rs         |  6 ++++--
 .../src/parsing/common/spanned_data_type.rs          | 12 ------------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 05d4706..ebe9e18 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -124,6 +124,9 @@ fn parse_field_helper(
 
     if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
         check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
+    }
+
+    if !matches!(spanned_data_type_token.data_type(), DataType::Custom) {
         check_field_data_type_can_hold_bits(
             bits_attribute.as_ref(),
             bits,
@@ -357,12 +360,11 @@ fn check_field_data_type_can_hold_bits(
     };
 
     let field_max_bits = spanned_data_type_token.data_type().bit_size();
-    let spanned_data_type_tokens = spanned_data_type_token.get_data_type_tokens();
     if bits > field_max_bits {
         return Err(create_user_parsing_compiler_error(
             bits_attr.span().expect("Expected bits attribute for bits checking"),
             format!(
-                "The field type '{spanned_data_type_tokens}' is too small to hold the specified \
+                "The field type '{spanned_data_type_token}' is too small to hold the specified \
                  '{bits} bits'."
             ),
         ));
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index e64e509..b97b4fa 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -124,18 +124,6 @@ impl SpannedDataTypeToken {
             _ => None,
         }
     }
-
-    /// Returns the token representation of the data type.
-    /// For array-backed types, returns `u128` as the internal backing type.
-    pub fn get_data_type_tokens(&self) -> TokenStream {
-        if matches!(self.data_type, DataType::Array { .. }) {
-            return quote! {
-                u128
-            };
-        }
-
-        self.original_type_tokens.clone()
-    }
 }
 
 impl ToTokens for SpannedDataTypeToken {
-- 
2.43.0


From 62566c9cae369007a979bb674dac2f8dfb010186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 16/31] fix: do not generate builder setters for no-access
 fields

---
 .../src/generating/bitfield/features/builder_feature.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index 3370677..a0d7913 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -129,7 +129,7 @@ impl BuilderFeature {
         bitfield
             .fields()
             .iter()
-            .filter(|field: &&Field| !field.is_reserved())
+            .filter(|field: &&Field| field.has_getter() || field.has_setter())
             .map(|field| Self::generate_generate_builder_setters_setter_helper(bitfield, field))
             .collect()
     }
-- 
2.43.0


From 844f0d5b13600894f39a8936ce4d24277bba0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 17/31] fix: only reject float literals as float defaults

---
 bitfields_impl/src/parsing/common/const_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 0ab1eed..84ab8b3 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -78,7 +78,10 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
+        let unsigned_number_str = Self::strip_negative_sign(number_str);
+        let is_number = unsigned_number_str.starts_with(|c: char| c.is_ascii_digit());
+
+        if is_number && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
             if number_str.contains(FLOAT_DOT) || contains_float_identifier {
-- 
2.43.0


From e15280bd459dd803eb928bbfadddd71e96db5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:47 +0000
Subject: [PATCH 18/31] fix: accept constant expressions starting with a
 prefixed integer as defaults

---
 .../src/parsing/common/const_expr.rs          | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 84ab8b3..4d8ca60 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,3 +1,5 @@
+use std::num::ParseIntError;
+
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::Expr;
@@ -152,43 +154,38 @@ impl ConstExpr {
 
     fn parse_integer_helper(number_str: &str, spanned_token: &SpannedToken) -> syn::Result<u128> {
         if number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
-            return match u128::from_str_radix(
+            return u128::from_str_radix(
                 number_str.trim_start_matches(&IntegerPrefix::Hex.prefix()),
                 IntegerPrefix::Hex.radix(),
-            ) {
-                Ok(num) => Ok(num),
-                Err(err) => unreachable!("Hex parsing should succeed: {:?}", err),
-            };
+            )
+            .map_err(|err| Self::integer_parsing_error(&err, spanned_token));
         }
 
         if number_str.starts_with(&IntegerPrefix::Binary.prefix()) {
-            return match u128::from_str_radix(
+            return u128::from_str_radix(
                 number_str.trim_start_matches(&IntegerPrefix::Binary.prefix()),
                 IntegerPrefix::Binary.radix(),
-            ) {
-                Ok(num) => Ok(num),
-                Err(err) => unreachable!("Binary parsing should succeed: {:?}", err),
-            };
+            )
+            .map_err(|err| Self::integer_parsing_error(&err, spanned_token));
         }
 
         if number_str.starts_with(&IntegerPrefix::Octal.prefix()) {
-            return match u128::from_str_radix(
+            return u128::from_str_radix(
                 number_str.trim_start_matches(&IntegerPrefix::Octal.prefix()),
                 IntegerPrefix::Octal.radix(),
-            ) {
-                Ok(num) => Ok(num),
-                Err(err) => unreachable!("Octal parsing should succeed: {:?}", err),
-            };
+            )
+            .map_err(|err| Self::integer_parsing_error(&err, spanned_token));
         }
 
         // Regular number
-        match number_str.parse::<u128>() {
-            Ok(num) => Ok(num),
-            Err(err) => Err(create_user_parsing_compiler_error(
-                spanned_token.span(),
-                format!("Failed to parse integer literal: {err}"),
-            )),
-        }
+        number_str.parse::<u128>().map_err(|err| Self::integer_parsing_error(&err, spanned_token))
+    }
+
+    fn integer_parsing_error(err: &ParseIntError, spanned_token: &SpannedToken) -> syn::Error {
+        create_user_parsing_compiler_error(
+            spanned_token.span(),
+            format!("Failed to parse integer literal: {err}"),
+        )
     }
 
     fn parse_path(spanned_token: &SpannedToken) -> Self {
-- 
2.43.0


From c5d725ae3e19c99376dc7499030f8630d1900ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:49 +0000
Subject: [PATCH 19/31] fix: allow ignored fields of any type that implements
 Default

---
 .../bitfield/features/common/generator_helper.rs         | 8 +-------
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs  | 3 +--
 bitfields_impl/src/parsing/common/spanned_data_type.rs   | 9 +++++++++
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 1f261a7..36194af 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -103,14 +103,8 @@ fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<
             let field_name_tokens = field.name_tokens();
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
 
-            if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(..)) {
-                return quote! {
-                    #field_name_tokens: <#field_data_type_tokens>::default()
-                };
-            }
-
             quote! {
-                #field_name_tokens: #field_data_type_tokens::default()
+                #field_name_tokens: <#field_data_type_tokens>::default()
             }
         })
         .collect()
diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index ebe9e18..77bf3fa 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -152,8 +152,7 @@ fn parse_field_helper(
 }
 
 fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
-    let spanned_data_type_token = SpannedDataTypeToken::new(&field_tokens.ty)
-        .expect("Expected field type kind for ignored field");
+    let spanned_data_type_token = SpannedDataTypeToken::new_ignored(&field_tokens.ty);
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
     Field::new(
         Visibility::new(&field_tokens.vis),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index b97b4fa..bd3d9e7 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -33,6 +33,15 @@ impl SpannedDataTypeToken {
         })
     }
 
+    /// Creates a type kind for an ignored field, which can be any type.
+    pub fn new_ignored(syn_type: &Type) -> Self {
+        Self {
+            data_type: DataType::Custom,
+            spanned_token: SpannedToken::new(Self::get_syn_type_string(syn_type), syn_type.span()),
+            original_type_tokens: quote! { #syn_type },
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
-- 
2.43.0


From 15466bccd8044a26774eeb8c9a4f0a64247d0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:51 +0000
Subject: [PATCH 20/31] fix: keep the whole path of pub(in path) visibilities

---
 bitfields_impl/src/parsing/common/visibility.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index 25a220a..3b297ae 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote};
+use quote::quote;
+use syn::Path;
 
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -27,7 +28,8 @@ impl Visibility {
                     .segments
                     .iter()
                     .map(|segment| segment.ident.to_string())
-                    .collect::<String>();
+                    .collect::<Vec<_>>()
+                    .join("::");
                 Self::Restricted(path)
             },
             syn::Visibility::Inherited => Self::Private,
@@ -44,9 +46,10 @@ impl ToTokens for Visibility {
                 }
             },
             Self::Restricted(path) => {
-                let path_ident = format_ident!("{}", path);
+                let path: Path =
+                    syn::parse_str(path).expect("Expected previously parsed visibility path");
                 quote! {
-                    pub(#path_ident)
+                    pub(in #path)
                 }
             },
             Self::Private => {
-- 
2.43.0


From 5cfa4ade1b5fdfea9354bf7a3cc1dbc543b7682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:52 +0000
Subject: [PATCH 21/31] fix: leave non-writable fields untouched when inverting
 the bitfield

---
 .../src/generating/bitfield/features/invert_bit_ops_feature.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 9327c2f..de7d62e 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -61,7 +61,7 @@ impl InvertBitOpsFeature {
         let extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens =
             generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens(
                 bitfield,
-                ProtectionType::None,
+                ProtectionType::ReadOnly,
             );
         let bob = get_bits_or_bytes_term(bitfield);
         let invert_fn = format_ident!("invert_{}", bob);
-- 
2.43.0


From a40ed5c6765b8711db6cd8d290641aa4fe3d4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:15 +0000
Subject: [PATCH 22/31] fix: derive Copy for bitflags through core so they
 compile in no_std crates

---
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 90afbd9..fe95e09 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(std::marker::Copy, core::clone::Clone)]
+            #[derive(core::marker::Copy, core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From ace9fb898d84fc0a2b5cd2ea866491a254d83031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:09 +0000
Subject: [PATCH 23/31] fix: check the range of long negative default literals

---
 bitfields_impl/src/parsing/common/const_expr.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 4d8ca60..e9b4222 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -61,8 +61,12 @@ impl IntegerPrefix {
 
 impl ConstExpr {
     pub fn new(spanned_token: &SpannedToken) -> syn::Result<Self> {
-        let trimmed_number_str =
-            spanned_token.token().trim().replace([' ', '_'], "").to_ascii_lowercase();
+        // The token printer breaks long lines, so the sign and the number of a long literal
+        // can be separated by any whitespace.
+        let trimmed_number_str = spanned_token
+            .token()
+            .replace(|c: char| c.is_whitespace() || c == '_', "")
+            .to_ascii_lowercase();
 
         Self::check_float(&trimmed_number_str, spanned_token.span())?;
 
-- 
2.43.0


From 73f4c6db7a5308eefdf49f4e5768ca50580cf47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 24/31] fix: accept raw identifiers as field and struct names

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index cabf078..74784aa 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -1,6 +1,7 @@
 use getset::{CloneGetters, Getters};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::bitfields::bits_attribute::bits_arguments::{BitsArguments, FieldAccess};
@@ -48,7 +49,7 @@ impl Bitfield {
         ignored_fields: Vec<Field>,
         arguments: BitfieldArguments,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             user_attributes_tokens,
             visibility,
@@ -127,7 +128,7 @@ impl Field {
         arguments: Option<BitsArguments>,
         ignored: bool,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             visibility,
             name,
-- 
2.43.0


From 38128fc2a1027f739a41b02f904c9977dd66b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:22 +0000
Subject: [PATCH 25/31] fix: accept generic user types as field types

`G<4>::from_bits` is not an expression; qualify the type.
---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 ++--
 .../src/generating/bitfield/features/field_getters_feature.rs | 2 +-
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 36194af..edb587e 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -197,7 +197,7 @@ pub fn generate_setting_field_to_zero_tokens(bitfield: &Bitfield, field: &Field)
         },
         DataType::Custom => {
             let custom_field_data_type_tokens = field.spanned_data_type_token().to_tokens();
-            quote! { #custom_field_data_type_tokens::from_bits(0) }
+            quote! { <#custom_field_data_type_tokens>::from_bits(0) }
         },
         DataType::Array {
             length,
@@ -337,7 +337,7 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
     match field.spanned_data_type_token().data_type() {
         DataType::Custom => {
             quote! {
-                #custom_field_data_type_tokens::from_bits(value as _)
+                <#custom_field_data_type_tokens>::from_bits(value as _)
             }
         },
         DataType::Integer(IntegerType::Bool) => {
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 7b2eb40..345de43 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -88,7 +88,7 @@ impl FieldGettersFeature {
             DataType::Custom => {
                 let custom_field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 quote! {
-                    #custom_field_data_type_tokens::from_bits(value as _)
+                    <#custom_field_data_type_tokens>::from_bits(value as _)
                 }
             },
             DataType::Array {
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index de7d62e..a20ec6c 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -186,7 +186,7 @@ impl InvertBitOpsFeature {
         match field.spanned_data_type_token().data_type() {
             DataType::Custom => {
                 quote! {
-                    #custom_field_data_type_tokens::from_bits(value as _)
+                    <#custom_field_data_type_tokens>::from_bits(value as _)
                 }
             },
             DataType::Integer(IntegerType::Bool) => {
-- 
2.43.0


From 021c8b145c8ad9e39fac59913d6a3f2184f2a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:22 +0000
Subject: [PATCH 26/31] fix: accept types passed through macro_rules fragments

A `$ty` fragment reaches the attribute as an invisible group, which was
rejected both as bitfield type and as field type.
---
 .../src/parsing/common/spanned_data_type.rs   | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index bd3d9e7..08763b6 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -3,8 +3,8 @@ use std::cmp::PartialEq;
 use derive_more::Display;
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
-use syn::Type;
 use syn::spanned::Spanned;
+use syn::{Expr, Type};
 
 use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::to_tokens::ToTokens;
@@ -22,6 +22,7 @@ pub struct SpannedDataTypeToken {
 impl SpannedDataTypeToken {
     /// Creates a new type kind from a syn type.
     pub fn new(syn_type: &Type) -> Result<Self, TypeParsingError> {
+        let syn_type = Self::strip_group(syn_type);
         let str_repr = Self::get_syn_type_string(syn_type);
         let data_type = Self::get_data_type(syn_type)?;
         let original_type_tokens = quote! { #syn_type };
@@ -42,6 +43,24 @@ impl SpannedDataTypeToken {
         }
     }
 
+    /// Returns the type inside the invisible group of a `macro_rules!`
+    /// fragment (e.g. `$ty`).
+    fn strip_group(syn_type: &Type) -> &Type {
+        match syn_type {
+            Type::Group(group) => Self::strip_group(&group.elem),
+            _ => syn_type,
+        }
+    }
+
+    /// Returns the array length expression inside the invisible group of a
+    /// `macro_rules!` fragment (e.g. `$len`).
+    fn strip_expr_group(expr: &Expr) -> &Expr {
+        match expr {
+            Expr::Group(group) => Self::strip_expr_group(&group.expr),
+            _ => expr,
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
@@ -55,7 +74,7 @@ impl SpannedDataTypeToken {
 
     /// Get the type category of the type.
     fn get_data_type(syn_type: &Type) -> Result<DataType, TypeParsingError> {
-        match syn_type {
+        match Self::strip_group(syn_type) {
             Type::Path(type_path) => {
                 let type_name =
                     type_path.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
@@ -83,8 +102,8 @@ impl SpannedDataTypeToken {
                     return Err(TypeParsingError::NonIntegerArrayType);
                 }
 
-                let length = match &type_array.len {
-                    syn::Expr::Lit(expr_lit) => match &expr_lit.lit {
+                let length = match Self::strip_expr_group(&type_array.len) {
+                    Expr::Lit(expr_lit) => match &expr_lit.lit {
                         syn::Lit::Int(lit_int) => lit_int
                             .base10_parse::<u32>()
                             .map_err(|_| TypeParsingError::ArrayLengthTooLarge)?,
-- 
2.43.0


From 90548306ec64be7b55f75949424257e8592cec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:23 +0000
Subject: [PATCH 27/31] fix: evaluate the whole default expression before
 converting it to bits

A default such as `*X` on a read-only field of a user type was split by
the method call.
---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index edb587e..b49f941 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -709,7 +709,7 @@ fn generate_setting_field_without_setter_tokens(
                 if #value_tokens { 1u128 } else { 0u128 }
             },
             DataType::Custom => quote! {
-                #value_tokens.into_bits() as u128
+                (#value_tokens).into_bits() as u128
             },
             _ => quote! {
                 #value_tokens as u128
@@ -750,7 +750,7 @@ fn generate_setting_field_without_setter_tokens(
         return quote! {
             let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - #field_bits_tokens);
             #[allow(clippy::unnecessary_cast)]
-            let field_bits = #value_tokens.into_bits() as #bitfield_data_type_tokens;
+            let field_bits = (#value_tokens).into_bits() as #bitfield_data_type_tokens;
             #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << #field_offset_tokens)) | ((field_bits & mask) << #field_offset_tokens);
         };
     }
-- 
2.43.0


From ac1b59f9ccc66b6940044839d6922db6128a0599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 28/31] fix: keep the tokens of default expressions instead of
 re-parsing their text

An expression passed through a macro_rules fragment lost its grouping ($e * 2 with
$e = 1 + 2 gave 5) and a $crate path made the macro panic.
---
 .../bits_attribute/bits_arguments.rs          |  3 +-
 .../src/parsing/bitflags/bitflag_parser.rs    |  2 +-
 .../common/attribute_argument_parser.rs       | 11 ++--
 .../src/parsing/common/const_expr.rs          | 52 ++++++++++++++-----
 4 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs b/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
index e178b0d..2af899a 100644
--- a/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
+++ b/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
@@ -118,7 +118,8 @@ impl Parse for BitsArguments {
                     bits_arguments.ignored = parse_boolean_attribute_argument(argument)?;
                 },
                 BitsArgumentKey::Default => {
-                    bits_arguments.default_value_expr = Some(ConstExpr::new(&argument.value())?);
+                    bits_arguments.default_value_expr =
+                        Some(ConstExpr::new(&argument.value(), &argument.value_expr())?);
                 },
             }
         }
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index da21523..39c10af 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -68,7 +68,7 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
             let token = quote!(#expr).to_string();
             let span = expr.span();
             let spanned_token = SpannedToken::new(token, span);
-            ConstExpr::new(&spanned_token)?
+            ConstExpr::new(&spanned_token, &expr)?
         },
         None => {
             return Err(create_user_parsing_compiler_error(
diff --git a/bitfields_impl/src/parsing/common/attribute_argument_parser.rs b/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
index 9db6421..c4977a0 100644
--- a/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
+++ b/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
@@ -4,7 +4,7 @@ use getset::CloneGetters;
 use quote::quote;
 use syn::parse::ParseStream;
 use syn::spanned::Spanned;
-use syn::{Ident, Token};
+use syn::{Expr, Ident, Token};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
@@ -17,13 +17,17 @@ pub struct AttributeArgument {
 
     #[getset(get_clone = "pub")]
     value: SpannedToken,
+
+    #[getset(get_clone = "pub")]
+    value_expr: Expr,
 }
 
 impl AttributeArgument {
-    pub const fn new(key: SpannedToken, value: SpannedToken) -> Self {
+    pub const fn new(key: SpannedToken, value: SpannedToken, value_expr: Expr) -> Self {
         Self {
             key,
             value,
+            value_expr,
         }
     }
 }
@@ -87,7 +91,7 @@ pub fn parse_attribute_arguments(
 
         // Parse value — accept an ident/path (e.g. `lsb` or `CustomType::A`) or
         // a literal (e.g. `true`, `42`)
-        let expr: syn::Expr = match input.parse() {
+        let expr: Expr = match input.parse() {
             Ok(expr) => expr,
             Err(_) => {
                 return Err(create_user_parsing_compiler_error(
@@ -103,6 +107,7 @@ pub fn parse_attribute_arguments(
         arguments.push(AttributeArgument::new(
             SpannedToken::new(key.to_string(), key.span()),
             SpannedToken::new(value, value_span),
+            expr,
         ));
     }
 
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index e9b4222..11aa702 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,6 +1,6 @@
 use std::num::ParseIntError;
 
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
 use quote::quote;
 use syn::Expr;
 
@@ -15,6 +15,7 @@ const INTEGER_IDENTIFIERS: [&str; 12] =
     ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
 const BOOLEAN_IDENTIFIERS: [&str; 2] = ["true", "false"];
 const NEGATIVE_SIGN: &str = "-";
+const DOLLAR_CRATE: &str = "$crate";
 
 /// Represents a constant expression.
 #[derive(Clone, Debug)]
@@ -22,8 +23,8 @@ pub enum ConstExpr {
     /// An integer or boolean literal with optional negation.
     Literal { number: u128, negative_sign: bool, spanned_token: SpannedToken },
 
-    /// A constant path.
-    Path { spanned_token: SpannedToken },
+    /// A constant path or expression, kept as the tokens the user wrote.
+    Path { spanned_token: SpannedToken, expr: Box<Expr> },
 }
 
 enum IntegerPrefix {
@@ -60,7 +61,7 @@ impl IntegerPrefix {
 }
 
 impl ConstExpr {
-    pub fn new(spanned_token: &SpannedToken) -> syn::Result<Self> {
+    pub fn new(spanned_token: &SpannedToken, expr: &Expr) -> syn::Result<Self> {
         // The token printer breaks long lines, so the sign and the number of a long literal
         // can be separated by any whitespace.
         let trimmed_number_str = spanned_token
@@ -80,7 +81,7 @@ impl ConstExpr {
         }
 
         // Parsing as integer failed; assume it's a path and let the compiler handle it.
-        Ok(Self::parse_path(spanned_token))
+        Ok(Self::parse_path(spanned_token, expr))
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
@@ -192,9 +193,10 @@ impl ConstExpr {
         )
     }
 
-    fn parse_path(spanned_token: &SpannedToken) -> Self {
+    fn parse_path(spanned_token: &SpannedToken, expr: &Expr) -> Self {
         Self::Path {
             spanned_token: spanned_token.clone(),
+            expr: Box::new(expr.clone()),
         }
     }
 
@@ -204,12 +206,40 @@ impl ConstExpr {
                 spanned_token, ..
             }
             | Self::Path {
-                spanned_token,
+                spanned_token, ..
             } => spanned_token.span(),
         }
     }
 }
 
+/// Expressions passed through a `macro_rules!` fragment arrive in invisible groups, which the
+/// compiler ignores in macro output, so operators inside of them need explicit parentheses.
+fn parenthesize_operator_groups(tokens: TokenStream) -> TokenStream {
+    tokens
+        .into_iter()
+        .map(|mut token| {
+            let TokenTree::Group(group) = token else {
+                // `$crate` names the crate of the macro it was written in by its span
+                if token.to_string() != DOLLAR_CRATE {
+                    token.set_span(Span::call_site());
+                }
+                return token;
+            };
+            let is_operator = group.delimiter() == Delimiter::None
+                && matches!(
+                    syn::parse2::<Expr>(group.stream()),
+                    Ok(Expr::Binary(_)
+                        | Expr::Cast(_)
+                        | Expr::Range(_)
+                        | Expr::Reference(_)
+                        | Expr::Unary(_))
+                );
+            let delimiter = if is_operator { Delimiter::Parenthesis } else { group.delimiter() };
+            TokenTree::Group(Group::new(delimiter, parenthesize_operator_groups(group.stream())))
+        })
+        .collect()
+}
+
 impl ToTokens for ConstExpr {
     fn to_tokens(&self) -> TokenStream {
         match self {
@@ -221,12 +251,8 @@ impl ToTokens for ConstExpr {
                 quote! { #expr }
             },
             Self::Path {
-                spanned_token,
-            } => {
-                let expr: Expr = syn::parse_str(&spanned_token.token())
-                    .expect("Failed to parse previously accepted path expression");
-                quote! { #expr }
-            },
+                expr, ..
+            } => parenthesize_operator_groups(quote! { #expr }),
         }
     }
 }
-- 
2.43.0


From bb7bd78e95d432e981b43c5deff913e17fa8d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:34 +0000
Subject: [PATCH 29/31] fix: generated code names core's traits by absolute
 paths

---
 .../generating/bitfield/features/bitfield_struct_feature.rs   | 4 ++--
 .../src/generating/bitfield/features/builder_feature.rs       | 2 +-
 .../src/generating/bitfield/features/debug_trait_feature.rs   | 4 ++--
 .../src/generating/bitfield/features/default_trait_feature.rs | 2 +-
 .../src/generating/bitfield/features/from_traits_feature.rs   | 4 ++--
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs    | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index f88075e..24fd9e8 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -83,11 +83,11 @@ impl BitfieldStructFeatureGenerator {
             let is_heap_array = bitfield.arguments().array_heap() && !bitfield.is_integer_backed();
             if is_heap_array {
                 attributes_tokens.push(quote! {
-                    #[derive(core::clone::Clone)]
+                    #[derive(::core::clone::Clone)]
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(core::marker::Copy, core::clone::Clone)]
+                    #[derive(::core::marker::Copy, ::core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index a0d7913..70eaab6 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -61,7 +61,7 @@ impl BuilderFeature {
                 this: #bitfield_name_tokens,
             }
 
-            impl Default for #builder_ident_tokens {
+            impl ::core::default::Default for #builder_ident_tokens {
                 fn default() -> Self {
                     Self::new()
                 }
diff --git a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
index 90aa3f2..d14a888 100644
--- a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
@@ -37,8 +37,8 @@ impl DebugTraitFeature {
         let set_debug_fields = Self::generate_debug_set_field_tokens(bitfield);
 
         quote! {
-            impl core::fmt::Debug for #bitfield_name_tokens {
-                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            impl ::core::fmt::Debug for #bitfield_name_tokens {
+                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                     let this = self;
                     let mut debug = f.debug_struct(#bitfield_name);
                     #set_debug_fields
diff --git a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
index 3efd4bd..45fdc89 100644
--- a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
@@ -36,7 +36,7 @@ impl DefaultTraitFeature {
             Self::generate_default_trait_feature_implementation_tokens(bitfield);
 
         quote! {
-            impl core::default::Default for #bitfield_name_tokens {
+            impl ::core::default::Default for #bitfield_name_tokens {
                 fn default() -> #bitfield_name_tokens {
                     #default_trait_feature_implementation_tokens
                 }
diff --git a/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs b/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
index e1616cf..c3b618b 100644
--- a/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
@@ -69,7 +69,7 @@ impl FromTraitsFeature {
         let source_param = generate_backing_data_param_ident(bitfield);
 
         quote! {
-            impl core::convert::From<#bitfield_data_type_tokens> for #bitfield_name_tokens {
+            impl ::core::convert::From<#bitfield_data_type_tokens> for #bitfield_name_tokens {
                 fn from(#source_param: #bitfield_data_type_tokens) -> Self {
                     let mut this = #initialize_struct_initialization_tokens;
                     let bits = #bits_return_endian_conversion_tokens;
@@ -89,7 +89,7 @@ impl FromTraitsFeature {
             );
 
         quote! {
-            impl core::convert::From<#bitfield_name_tokens> for #bitfield_data_type_tokens {
+            impl ::core::convert::From<#bitfield_name_tokens> for #bitfield_data_type_tokens {
                 fn from(val: #bitfield_name_tokens) -> Self {
                     let mut this = val;
                     #bits_return_endian_conversion_tokens
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index fe95e09..26d70b6 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(core::marker::Copy, core::clone::Clone)]
+            #[derive(::core::marker::Copy, ::core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From e494e612bc966bb73b244267d09a7f81d25b98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 30/31] fix: generated code names Ok and Err by absolute paths

---
 .../bitfield/features/builder_feature.rs      |  2 +-
 .../features/common/generator_helper.rs       | 10 +++---
 .../features/field_setters_feature.rs         |  2 +-
 .../features/from_into_bits_feature.rs        | 22 ++++++------
 .../features/set_get_bit_ops_feature.rs       | 36 +++++++++----------
 5 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index 70eaab6..6239d22 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -173,7 +173,7 @@ impl BuilderFeature {
             #[doc = #checked_setter_documentation]
             #visibility_tokens #function_modifier_tokens fn #builder_checked_setter_name_token_stream(mut self, bits: #data_type_tokens) -> ::core::result::Result<Self, &'static str> {
                 #checked_set_bits_logic_tokens
-                Ok(self)
+                ::core::result::Result::Ok(self)
             }
         }
     }
diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index b49f941..516be6e 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -323,8 +323,8 @@ fn generate_builder_direct_setter_call_tokens(field: &Field, check_bit_size: boo
     if check_bit_size {
         quote! {
             match #call {
-                Ok(()) => {},
-                Err(e) => return Err(e),
+                ::core::result::Result::Ok(()) => {},
+                ::core::result::Result::Err(e) => return ::core::result::Result::Err(e),
             }
         }
     } else {
@@ -354,7 +354,7 @@ fn generate_bit_size_check_tokens() -> TokenStream {
     quote! {
         #[allow(clippy::unnecessary_cast)]
         if (bits as u128) > (mask as u128) {
-            return Err("Value is too big to fit within the field bits.");
+            return ::core::result::Result::Err("Value is too big to fit within the field bits.");
         }
     }
 }
@@ -373,7 +373,7 @@ fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
         let mut __i: u32 = #field_bits;
         while __i < #type_bits {
             if (bits[(__i / 8) as usize] >> (__i % 8)) & 1 != 0 {
-                return Err("Value is too big to fit within the field bits.");
+                return ::core::result::Result::Err("Value is too big to fit within the field bits.");
             }
             __i += 1;
         }
@@ -399,7 +399,7 @@ fn generate_signed_bit_size_check_tokens(field: &Field) -> TokenStream {
 
     quote! {
         if bits > #max_lit || bits < -(#min_abs_lit) {
-            return Err("Value is too big to fit within the field bits.");
+            return ::core::result::Result::Err("Value is too big to fit within the field bits.");
         }
     }
 }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_setters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_setters_feature.rs
index c9d4252..bf2507d 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_setters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_setters_feature.rs
@@ -80,7 +80,7 @@ impl FieldSettersFeature {
             #visibility_tokens #function_modifier_tokens fn #checked_field_setter_ident_tokens(&mut self, bits: #field_data_type_tokens) -> ::core::result::Result<(), &'static str> {
                 let this = self;
                 #checked_set_bits_logic_tokens
-                Ok(())
+                ::core::result::Result::Ok(())
             }
         }
     }
diff --git a/bitfields_impl/src/generating/bitfield/features/from_into_bits_feature.rs b/bitfields_impl/src/generating/bitfield/features/from_into_bits_feature.rs
index a62d506..c7eff9d 100644
--- a/bitfields_impl/src/generating/bitfield/features/from_into_bits_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/from_into_bits_feature.rs
@@ -333,7 +333,7 @@ impl FromIntoBitsFeature {
 
         let size_check_tokens = quote! {
             if slice.len() < #array_len {
-                return Err("Slice is too small to fill the bitfield.");
+                return ::core::result::Result::Err("Slice is too small to fill the bitfield.");
             }
         };
 
@@ -390,7 +390,7 @@ impl FromIntoBitsFeature {
                 #default_endian_tokens
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given byte slice while \
@@ -403,7 +403,7 @@ impl FromIntoBitsFeature {
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
                 #( #setting_fields_to_default_value_tokens_list )*
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given little-endian byte \
@@ -438,7 +438,7 @@ impl FromIntoBitsFeature {
                 #le_endian_tokens
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given little-endian byte \
@@ -451,7 +451,7 @@ impl FromIntoBitsFeature {
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
                 #( #setting_fields_to_default_value_tokens_list )*
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given big-endian byte \
@@ -486,7 +486,7 @@ impl FromIntoBitsFeature {
                 #be_endian_tokens
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given big-endian byte \
@@ -499,7 +499,7 @@ impl FromIntoBitsFeature {
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
                 #( #setting_fields_to_default_value_tokens_list )*
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
         }
     }
@@ -649,7 +649,7 @@ impl FromIntoBitsFeature {
 
         let size_check_tokens = quote! {
             if slice.len() < #array_len {
-                return Err("Slice is too small to hold the bitfield.");
+                return ::core::result::Result::Err("Slice is too small to hold the bitfield.");
             }
         };
 
@@ -672,7 +672,7 @@ impl FromIntoBitsFeature {
                 #size_check_tokens
                 #default_get_bits
                 #copy_exact_to_slice_tokens
-                Ok(())
+                ::core::result::Result::Ok(())
             }
 
             #[doc = "Writes the bitfield bytes in little-endian order into the \
@@ -692,7 +692,7 @@ impl FromIntoBitsFeature {
                 #size_check_tokens
                 #le_get_bits
                 #copy_exact_to_slice_tokens
-                Ok(())
+                ::core::result::Result::Ok(())
             }
 
             #[doc = "Writes the bitfield bytes in big-endian order into the \
@@ -712,7 +712,7 @@ impl FromIntoBitsFeature {
                 #size_check_tokens
                 #be_get_bits
                 #copy_exact_to_slice_tokens
-                Ok(())
+                ::core::result::Result::Ok(())
             }
         }
     }
diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 2d0bae8..d2e92a8 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -123,7 +123,7 @@ impl SetGetBitOpsFeature {
                         #bitfield_internal_value_ident_tokens &= !(1 << offset);
                     }
 
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
 
                 #[doc = "Sets bits in the bitfield starting from the offset \
@@ -150,15 +150,15 @@ impl SetGetBitOpsFeature {
                     #check_offset_and_length_bitfield_range_error_tokens
                     #range_mask
                     if value > mask {
-                        return Err("The value is too large for the length.");
+                        return ::core::result::Result::Err("The value is too large for the length.");
                     }
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
-                        return Err("Attempted to write to non-writable bit(s).");
+                        return ::core::result::Result::Err("Attempted to write to non-writable bit(s).");
                     }
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << offset)) | ((value & mask) << offset);
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
             }
         } else {
@@ -195,7 +195,7 @@ impl SetGetBitOpsFeature {
                         #bitfield_internal_value_ident_tokens[byte_idx as usize] &= !(1 << bit_in_byte);
                     }
 
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
 
                 #[doc = "Sets bytes in the bitfield starting from the offset \
@@ -235,7 +235,7 @@ impl SetGetBitOpsFeature {
                     let mut i = length;
                     while i < #total_bits {
                         if (value[(i / 8) as usize] >> (i % 8)) & 1 != 0 {
-                            return Err("The value is too large for the length.");
+                            return ::core::result::Result::Err("The value is too large for the length.");
                         }
                         i += 1;
                     }
@@ -247,7 +247,7 @@ impl SetGetBitOpsFeature {
                         let dst_bit_in_byte = dst_bit % 8;
                         let is_protected = (protected_mask[dst_byte_idx] >> dst_bit_in_byte) & 1 != 0;
                         if is_protected {
-                            return Err("Attempted to write to non-writable bit(s).");
+                            return ::core::result::Result::Err("Attempted to write to non-writable bit(s).");
                         }
                         i += 1;
                     }
@@ -264,7 +264,7 @@ impl SetGetBitOpsFeature {
                         }
                         i += 1;
                     }
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
             }
         }
@@ -332,7 +332,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #field_bit_read_guard_error
-                    Ok((#bitfield_internal_value_ident_tokens >> offset) & 1 != 0)
+                    ::core::result::Result::Ok((#bitfield_internal_value_ident_tokens >> offset) & 1 != 0)
                 }
 
                 #[doc = "Returns bits from the bitfield."]
@@ -359,9 +359,9 @@ impl SetGetBitOpsFeature {
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
-                        return Err("Attempted to read from non-readable bit(s).");
+                        return ::core::result::Result::Err("Attempted to read from non-readable bit(s).");
                     }
-                    Ok((#bitfield_internal_value_ident_tokens >> offset) & mask)
+                    ::core::result::Result::Ok((#bitfield_internal_value_ident_tokens >> offset) & mask)
                 }
             }
         } else {
@@ -384,7 +384,7 @@ impl SetGetBitOpsFeature {
                     #field_bit_read_guard_error
                     let byte_idx = offset / 8;
                     let bit_in_byte = offset % 8;
-                    Ok((#bitfield_internal_value_ident_tokens[byte_idx as usize] >> bit_in_byte) & 1 != 0)
+                    ::core::result::Result::Ok((#bitfield_internal_value_ident_tokens[byte_idx as usize] >> bit_in_byte) & 1 != 0)
                 }
 
                 #[doc = "Returns bytes from the bitfield."]
@@ -427,7 +427,7 @@ impl SetGetBitOpsFeature {
                         let src_bit_in_byte = src_bit % 8;
                         let is_protected = (protected_mask[src_byte] >> src_bit_in_byte) & 1 != 0;
                         if is_protected {
-                            return Err("Attempted to read from non-readable bit(s).");
+                            return ::core::result::Result::Err("Attempted to read from non-readable bit(s).");
                         }
                         i += 1;
                     }
@@ -443,7 +443,7 @@ impl SetGetBitOpsFeature {
                         res[dst_byte] |= bit_val << dst_bit_in_byte;
                         i += 1;
                     }
-                    Ok(res)
+                    ::core::result::Result::Ok(res)
                 }
             }
         }
@@ -573,22 +573,22 @@ impl SetGetBitOpsFeature {
             },
             GuardReturnType::OffsetOutOfRangeError => {
                 quote! {
-                    return Err("The offset is outside the bitfield range.");
+                    return ::core::result::Result::Err("The offset is outside the bitfield range.");
                 }
             },
             GuardReturnType::LengthOutOfRangeError => {
                 quote! {
-                    return Err("The length is outside the bitfield range.");
+                    return ::core::result::Result::Err("The length is outside the bitfield range.");
                 }
             },
             GuardReturnType::AttemptedToWriteNonWritableBitsError => {
                 quote! {
-                    return Err("Attempted to write to non-writable bit(s).");
+                    return ::core::result::Result::Err("Attempted to write to non-writable bit(s).");
                 }
             },
             GuardReturnType::AttemptedToReadNonReadableBitsError => {
                 quote! {
-                    return Err("Attempted to read from non-readable bit(s).");
+                    return ::core::result::Result::Err("Attempted to read from non-readable bit(s).");
                 }
             },
         }
-- 
2.43.0


From 6e53f12f023ea56a22a14827f6a6d9aac07c84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:10 +0000
Subject: [PATCH 31/31] fix: defaults naming a constant like _1 or TRUE are not
 taken for literals

---
 bitfields_impl/src/parsing/common/const_expr.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 11aa702..48e57cc 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -62,6 +62,11 @@ impl IntegerPrefix {
 
 impl ConstExpr {
     pub fn new(spanned_token: &SpannedToken, expr: &Expr) -> syn::Result<Self> {
+        // A constant can be named like a number or boolean, e.g. `_1` or `TRUE`.
+        if Self::is_path(expr) {
+            return Ok(Self::parse_path(spanned_token, expr));
+        }
+
         // The token printer breaks long lines, so the sign and the number of a long literal
         // can be separated by any whitespace.
         let trimmed_number_str = spanned_token
@@ -84,6 +89,14 @@ impl ConstExpr {
         Ok(Self::parse_path(spanned_token, expr))
     }
 
+    fn is_path(expr: &Expr) -> bool {
+        match expr {
+            Expr::Group(group) => Self::is_path(&group.expr),
+            Expr::Path(_) => true,
+            _ => false,
+        }
+    }
+
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
         let unsigned_number_str = Self::strip_negative_sign(number_str);
         let is_number = unsigned_number_str.starts_with(|c: char| c.is_ascii_digit());
-- 
2.43.0

