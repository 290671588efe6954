From 9ddd1ed628b7aecc617ef9fca4aacc75d5e6afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 01/14] fix: zero-pad percent-encoded bytes below 0x10 in
 definition references

---
 schemars/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index e7932d2..0bd82fc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -27,7 +27,7 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
             } else if byte == b'/' {
                 buf.push_str("~1");
             } else if needs_encoding(byte) {
-                write!(buf, "%{byte:2X}").unwrap();
+                write!(buf, "%{byte:02X}").unwrap();
             } else {
                 buf.push(byte as char);
             }
-- 
2.43.0


From 907948892fa701b91e1de08ea3d30d86f675c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 02/14] fix: do not percent-decode a sign followed by a hex
 digit

---
 schemars/src/encoding.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 0bd82fc..ac5bac6 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -52,6 +52,7 @@ pub fn percent_decode(s: &str) -> Option<Cow<'_, str>> {
         for segment in segments {
             if let Some(decoded_byte) = segment
                 .get(0..2)
+                .filter(|p| p.bytes().all(|b| b.is_ascii_hexdigit()))
                 .and_then(|p| u8::from_str_radix(p, 16).ok())
             {
                 buf.push(decoded_byte);
-- 
2.43.0


From 76853dcfa7d7e28bc02738fe0007e8343d54b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 03/14] fix: keep definitions when the definitions path is the
 document root

---
 schemars/src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 35dc261..b276f14 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -629,10 +629,10 @@ fn json_pointer_mut<'a>(
 ) -> Option<&'a mut JsonMap<String, Value>> {
     use serde_json::map::Entry;
 
-    let pointer = pointer.strip_prefix('/')?;
     if pointer.is_empty() {
         return Some(object);
     }
+    let pointer = pointer.strip_prefix('/')?;
 
     for mut segment in pointer.split('/') {
         let replaced: String;
-- 
2.43.0


From 033fb8faf61f14cbe909e13db71f2de1e1b95150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 04/14] fix: RestrictFormats removes no format when inferring
 and $schema is missing

---
 schemars/src/transform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eb3e8ca..f34e165 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -688,8 +688,11 @@ impl Transform for RestrictFormatsImpl<'_> {
             };
         }
 
+        let version_unknown = self.infer_from_meta_schema && self.inferred_formats.is_none();
+
         if let Some(format) = obj.get("format").and_then(Value::as_str) {
-            if !self.allowed_formats.contains(format)
+            if !version_unknown
+                && !self.allowed_formats.contains(format)
                 && !self
                     .inferred_formats
                     .is_some_and(|formats| formats.contains(&format))
-- 
2.43.0


From b7c7cf0e44d9898533aaf8db16cf1d57731b770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 05/14] fix: making a schema with a null const nullable keeps
 the const

---
 schemars/src/_private/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 1f2173c..803a897 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -491,7 +491,10 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
             }
 
             if let Some(c) = obj.remove("const") {
-                if !c.is_null() {
+                if c.is_null() {
+                    // keep it, as there may be no `type` that only allows null
+                    obj.insert("const".to_string(), c);
+                } else {
                     obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
                 }
             } else if let Some(Value::Array(e)) = obj.get_mut("enum") {
-- 
2.43.0


From 986758dc3115fd243156361d831e0344848159af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 06/14] fix: transform_subschemas visits unevaluatedProperties,
 unevaluatedItems and contentSchema

---
 schemars/src/transform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index f34e165..a64d55d 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -156,7 +156,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
             | "contains"
             | "additionalProperties"
             | "propertyNames"
-            | "additionalItems" => {
+            | "additionalItems"
+            | "unevaluatedProperties"
+            | "unevaluatedItems"
+            | "contentSchema" => {
                 if let Ok(subschema) = value.try_into() {
                     t.transform(subschema);
                 }
-- 
2.43.0


From 4214853401e263d203cb9371dc039f8b54550046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 07/14] fix: transform_subschemas visits dependentSchemas

---
 schemars/src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index a64d55d..bb680ea 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -186,7 +186,7 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     t.transform(subschema);
                 }
             }
-            "properties" | "patternProperties" | "$defs" | "definitions" => {
+            "properties" | "patternProperties" | "dependentSchemas" | "$defs" | "definitions" => {
                 if let Some(obj) = value.as_object_mut() {
                     for value in obj.values_mut() {
                         if let Ok(subschema) = value.try_into() {
-- 
2.43.0


From 7f62d3bfad38650c8f6587e039e107f5c26078e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 08/14] fix: ReplaceBoolSchemas skips only a boolean
 additionalProperties, not the schemas below it

---
 schemars/src/transform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index bb680ea..c33146b 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -293,7 +293,11 @@ pub struct ReplaceBoolSchemas {
 impl Transform for ReplaceBoolSchemas {
     fn transform(&mut self, schema: &mut Schema) {
         if let Some(obj) = schema.as_object_mut() {
-            if self.skip_additional_properties {
+            if self.skip_additional_properties
+                && obj
+                    .get("additionalProperties")
+                    .is_some_and(Value::is_boolean)
+            {
                 if let Some((ap_key, ap_value)) = obj.remove_entry("additionalProperties") {
                     transform_subschemas(self, schema);
 
-- 
2.43.0


From 5dc0b4b4ad6d98be160a40e220392c2998a073d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:45 +0000
Subject: [PATCH 09/14] fix: an optional flattened struct with several
 flattened enums accepts absence

---
 schemars/src/_private/mod.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 803a897..144b78e 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -84,6 +84,27 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         if is_optional {
             schema.remove("required");
 
+            // Handle `Option<>` of untagged enums
+            if let Some(Value::Array(any_of)) = schema.get_mut("anyOf") {
+                let empty_object = Value::Object(Map::new());
+                if !any_of.contains(&empty_object) {
+                    any_of.push(empty_object);
+                }
+            }
+
+            // Handle `Option<>` of structs that themselves flatten multiple enums
+            if let Some(all_of) = schema.remove("allOf") {
+                flatten(
+                    &mut schema,
+                    json_schema!({
+                        "anyOf": [
+                            { "allOf": all_of },
+                            {}
+                        ]
+                    }),
+                );
+            }
+
             // Handle `Option<>` of externally/internally/adjacently-tagged enums
             if let Some(one_of) = schema.remove("oneOf") {
                 // We can't just add `{}` to the existing `oneOf`, because its items must be
@@ -98,14 +119,6 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
                     }),
                 );
             }
-
-            // Handle `Option<>` of untagged enums
-            if let Some(Value::Array(any_of)) = schema.get_mut("anyOf") {
-                let empty_object = Value::Object(Map::new());
-                if !any_of.contains(&empty_object) {
-                    any_of.push(empty_object);
-                }
-            }
         }
 
         // Always allow aditional/unevaluated properties, because the outer struct determines
-- 
2.43.0


From c8a3921a5755fcd2170c8367ae6ca61837c804b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 10/14] fix: infer property names from map keys as serialized,
 without escape sequences

---
 schemars/src/ser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 81457c7..b6d83f9 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -388,11 +388,8 @@ impl serde::ser::SerializeMap for SerializeMap<'_> {
         // FIXME this is too lenient - we should return an error if serde_json
         // doesn't allow T to be a key of a map.
         let json = serde_json::to_string(key)?;
-        self.current_key = Some(
-            json.trim_start_matches('"')
-                .trim_end_matches('"')
-                .to_string(),
-        );
+        // String keys are unescaped, other keys (e.g. integers) are used as serialized
+        self.current_key = Some(serde_json::from_str::<String>(&json).unwrap_or(json));
 
         Ok(())
     }
-- 
2.43.0


From 7263a2b4f58eb56c3af22e086adf42d64911b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:07 +0000
Subject: [PATCH 11/14] fix: infer the schema of a non-finite float from the
 null it serializes to

---
 schemars/src/ser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index b6d83f9..dc92c79 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -67,8 +67,21 @@ impl<'a> serde::Serializer for Serializer<'a> {
     return_instance_type!(serialize_u32, u32, "integer");
     return_instance_type!(serialize_u64, u64, "integer");
     return_instance_type!(serialize_u128, u128, "integer");
-    return_instance_type!(serialize_f32, f32, "number");
-    return_instance_type!(serialize_f64, f64, "number");
+
+    fn serialize_f32(self, value: f32) -> Result<Self::Ok, Self::Error> {
+        self.serialize_f64(value.into())
+    }
+
+    fn serialize_f64(self, value: f64) -> Result<Self::Ok, Self::Error> {
+        if value.is_finite() {
+            Ok(json_schema!({
+                "type": "number"
+            }))
+        } else {
+            // serde_json serializes NaN and infinities as `null`
+            self.serialize_none()
+        }
+    }
 
     forward_to_subschema_for!(serialize_bool, bool);
     forward_to_subschema_for!(serialize_char, char);
-- 
2.43.0


From 792edffdc778a747630998f212ac6670b4544aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 12/14] fix: decode the definition name of a map key's
 reference before looking it up

---
 schemars/src/json_schema_impls/maps.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index da5a847..e5e1f87 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -61,7 +61,9 @@ where
                 .get("$ref")
                 .and_then(Value::as_str)
                 .and_then(|r| r.strip_prefix(&prefix))
-                .and_then(|r| generator.definitions().get(r))
+                .and_then(crate::encoding::percent_decode)
+                .map(|r| r.replace("~1", "/").replace("~0", "~"))
+                .and_then(|r| generator.definitions().get(&r))
                 .and_then(Value::as_object)
             {
                 *option = d;
-- 
2.43.0


From 52310d819847afc21d0483689d88712b668828f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:06 +0000
Subject: [PATCH 13/14] fix: a cloned generator keeps the names of its
 definitions

---
 schemars/src/generate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index b276f14..3da4b29 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -254,8 +254,8 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
-            schema_id_to_name: BTreeMap::new(),
-            used_schema_names: BTreeSet::new(),
+            schema_id_to_name: self.schema_id_to_name.clone(),
+            used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
         }
     }
-- 
2.43.0


From 1b2d3ac62515dfed1cb912dafac3c002d97e8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:34 +0000
Subject: [PATCH 14/14] fix: a newtype variant whose field is skipped is
 described as the unit variant serde treats it as

---
 schemars_derive/src/ast/mod.rs      |  23 ++++-
 schemars_derive/src/schema_exprs.rs | 137 +++++++++++++++++-----------
 2 files changed, 107 insertions(+), 53 deletions(-)

diff --git a/schemars_derive/src/ast/mod.rs b/schemars_derive/src/ast/mod.rs
index bf41572..aff2b55 100644
--- a/schemars_derive/src/ast/mod.rs
+++ b/schemars_derive/src/ast/mod.rs
@@ -86,7 +86,28 @@ impl Variant<'_> {
     }
 
     pub fn is_unit(&self) -> bool {
-        matches!(self.style, serde_ast::Style::Unit)
+        matches!(self.deserialize_style(), serde_ast::Style::Unit)
+            && matches!(self.serialize_style(), serde_ast::Style::Unit)
+    }
+
+    /// The style of this variant as seen by serde's deserializer
+    pub fn deserialize_style(&self) -> serde_ast::Style {
+        match self.style {
+            serde_ast::Style::Newtype if self.fields[0].serde_attrs.skip_deserializing() => {
+                serde_ast::Style::Unit
+            }
+            style => style,
+        }
+    }
+
+    /// The style of this variant as seen by serde's serializer
+    pub fn serialize_style(&self) -> serde_ast::Style {
+        match self.style {
+            serde_ast::Style::Newtype if self.fields[0].serde_attrs.skip_serializing() => {
+                serde_ast::Style::Unit
+            }
+            style => style,
+        }
     }
 
     pub fn add_mutators(&self, mutators: &mut Vec<TokenStream>) {
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 384affb..51a68e0 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -318,8 +318,8 @@ fn expr_for_external_tagged_enum<'a>(
 
         let name = variant.name();
 
-        let mut schema_expr =
-            SchemaExpr::from(if variant.is_unit() && variant.attrs.with.is_none() {
+        let mut schema_expr = expr_for_effective_style(variant, |style| {
+            SchemaExpr::from(if is_unit(style) && variant.attrs.with.is_none() {
                 quote! {
                     schemars::_private::new_unit_enum_variant(#name)
                 }
@@ -329,7 +329,8 @@ fn expr_for_external_tagged_enum<'a>(
                 quote! {
                     schemars::_private::new_externally_tagged_enum_variant(#name, #sub_schema)
                 }
-            });
+            })
+        });
 
         variant.add_mutators(&mut schema_expr.mutators);
 
@@ -402,56 +403,58 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 );
             }
 
-            let content_schema = if variant.is_unit() && variant.attrs.with.is_none() {
-                None
-            } else {
-                Some(expr_for_untagged_enum_variant(
-                    cont,
-                    variant,
-                    deny_unknown_fields,
-                    false,
-                ))
-            };
+            let mut outer_schema = expr_for_effective_style(variant, |style| {
+                let content_schema = if is_unit(style) && variant.attrs.with.is_none() {
+                    None
+                } else {
+                    Some(expr_for_untagged_enum_variant(
+                        cont,
+                        variant,
+                        deny_unknown_fields,
+                        false,
+                    ))
+                };
 
-            let (add_content_to_props, add_content_to_required) = content_schema
-                .map(|content_schema| {
-                    (
-                        quote!(#content_name: (#content_schema),),
-                        quote!(#content_name,),
-                    )
-                })
-                .unwrap_or_default();
+                let (add_content_to_props, add_content_to_required) = content_schema
+                    .map(|content_schema| {
+                        (
+                            quote!(#content_name: (#content_schema),),
+                            quote!(#content_name,),
+                        )
+                    })
+                    .unwrap_or_default();
 
-            let name = variant.name();
-            let tag_schema = quote! {
-                schemars::json_schema!({
-                    "type": "string",
-                    "const": #name,
-                })
-            };
+                let name = variant.name();
+                let tag_schema = quote! {
+                    schemars::json_schema!({
+                        "type": "string",
+                        "const": #name,
+                    })
+                };
 
-            let set_additional_properties = if deny_unknown_fields {
-                quote! {
-                    "additionalProperties": false,
-                }
-            } else {
-                TokenStream::new()
-            };
+                let set_additional_properties = if deny_unknown_fields {
+                    quote! {
+                        "additionalProperties": false,
+                    }
+                } else {
+                    TokenStream::new()
+                };
 
-            let mut outer_schema = SchemaExpr::from(quote!(schemars::json_schema!({
-                "type": "object",
-                "properties": {
-                    #tag_name: (#tag_schema),
-                    #add_content_to_props
-                },
-                "required": [
-                    #tag_name,
-                    #add_content_to_required
-                ],
-                // As we're creating a "wrapper" object, we can honor the
-                // disposition of deny_unknown_fields.
-                #set_additional_properties
-            })));
+                SchemaExpr::from(quote!(schemars::json_schema!({
+                    "type": "object",
+                    "properties": {
+                        #tag_name: (#tag_schema),
+                        #add_content_to_props
+                    },
+                    "required": [
+                        #tag_name,
+                        #add_content_to_required
+                    ],
+                    // As we're creating a "wrapper" object, we can honor the
+                    // disposition of deny_unknown_fields.
+                    #set_additional_properties
+                })))
+            });
 
             variant.add_mutators(&mut outer_schema.mutators);
 
@@ -569,7 +572,7 @@ fn expr_for_untagged_enum_variant(
         schema_expr.definitions.extend(type_def);
         schema_expr
     } else {
-        match variant.style {
+        expr_for_effective_style(variant, |style| match style {
             Style::Unit => expr_for_unit_struct(),
             Style::Newtype => expr_for_field(cont, &variant.fields[0], false),
             Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
@@ -579,7 +582,7 @@ fn expr_for_untagged_enum_variant(
                 &SerdeDefault::None,
                 deny_unknown_fields,
             ),
-        }
+        })
     };
 
     if is_actually_untagged {
@@ -614,7 +617,7 @@ fn expr_for_internal_tagged_enum_variant(
         return schema_expr;
     }
 
-    match variant.style {
+    expr_for_effective_style(variant, |style| match style {
         Style::Unit => expr_for_unit_struct(),
         Style::Newtype => expr_for_field(cont, &variant.fields[0], true),
         Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
@@ -624,7 +627,37 @@ fn expr_for_internal_tagged_enum_variant(
             &SerdeDefault::None,
             deny_unknown_fields,
         ),
+    })
+}
+
+/// Builds the expression for a variant from the style that serde treats it as, which may depend on
+/// the contract: a newtype variant whose only field is skipped is handled as a unit variant.
+fn expr_for_effective_style(
+    variant: &Variant,
+    expr_for_style: impl Fn(Style) -> SchemaExpr,
+) -> SchemaExpr {
+    let deserialize_style = variant.deserialize_style();
+    let serialize_style = variant.serialize_style();
+
+    if is_unit(deserialize_style) == is_unit(serialize_style) {
+        return expr_for_style(deserialize_style);
     }
+
+    let deserialize_expr = expr_for_style(deserialize_style);
+    let serialize_expr = expr_for_style(serialize_style);
+
+    quote!({
+        if #GENERATOR.contract().is_deserialize() {
+            #deserialize_expr
+        } else {
+            #serialize_expr
+        }
+    })
+    .into()
+}
+
+fn is_unit(style: Style) -> bool {
+    matches!(style, Style::Unit)
 }
 
 fn expr_for_unit_struct() -> SchemaExpr {
-- 
2.43.0

