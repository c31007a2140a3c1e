From 3c3b2258950e31eaed38a2d2e4139b5931af80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 01/14] fix: report dangling references as an error instead of
 panicking

---
 ifc_rs/src/meta/datamap/mod.rs    | 12 ++++++++++++
 ifc_rs_verify_derive/src/field.rs | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ifc_rs/src/meta/datamap/mod.rs b/ifc_rs/src/meta/datamap/mod.rs
index 73531d6..1cb2435 100644
--- a/ifc_rs/src/meta/datamap/mod.rs
+++ b/ifc_rs/src/meta/datamap/mod.rs
@@ -3,6 +3,8 @@ mod serialize;
 
 use std::{any::TypeId, collections::BTreeMap};
 
+use anyhow::{anyhow, Result};
+
 use crate::{
     id::{Id, TypedId},
     prelude::*,
@@ -55,6 +57,16 @@ impl DataMap {
         &**self.0.get(&id.into()).unwrap()
     }
 
+    /// checked version of [`Self::get_untyped`]: an id which isn't part of the map is an error
+    pub fn try_get_untyped(&self, id: impl Into<Id>) -> Result<&dyn IfcType> {
+        let id = id.into();
+
+        self.0
+            .get(&id)
+            .map(|ifc_type| &**ifc_type)
+            .ok_or_else(|| anyhow!("reference {id} doesn't exist"))
+    }
+
     pub fn get_mut<T: IfcType>(&mut self, typed_id: TypedId<T>) -> &mut T {
         self.0
             .get_mut(&typed_id.id())
diff --git a/ifc_rs_verify_derive/src/field.rs b/ifc_rs_verify_derive/src/field.rs
index bfbd6bd..ac62678 100644
--- a/ifc_rs_verify_derive/src/field.rs
+++ b/ifc_rs_verify_derive/src/field.rs
@@ -149,7 +149,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name;
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.try_get_untyped(id)?;
                         #multiple
 
                     }
@@ -160,7 +160,7 @@ impl ToTokens for Field {
                     quote! {
 
                         self.#var_name.0.iter().try_for_each(|id| {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.try_get_untyped(*id)?;
                             #multiple
 
                             Ok(())
@@ -174,7 +174,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name.id();
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.try_get_untyped(id)?;
                         #single
 
                     }
@@ -186,7 +186,7 @@ impl ToTokens for Field {
 
                         self.#var_name.0.iter().try_for_each(|typed_id| {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
 
                             Ok(())
@@ -201,7 +201,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.id() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
                         }
 
@@ -215,7 +215,7 @@ impl ToTokens for Field {
                         self.#var_name.0.iter().try_for_each(|id_or| {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
                             }
 
@@ -232,7 +232,7 @@ impl ToTokens for Field {
                     quote! {
 
                         if let Some(id) = self.#var_name.custom() {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.try_get_untyped(*id)?;
                             #multiple
                         }
 
@@ -245,7 +245,7 @@ impl ToTokens for Field {
 
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|id| {
-                                let t = ifc.data.get_untyped(*id);
+                                let t = ifc.data.try_get_untyped(*id)?;
                                 #multiple
 
                                 Ok(())
@@ -261,7 +261,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.custom() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
                         }
 
@@ -275,7 +275,7 @@ impl ToTokens for Field {
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|typed_id| {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
 
                                 Ok(())
@@ -292,7 +292,7 @@ impl ToTokens for Field {
                         if let Some(id_or) = self.#var_name.custom() {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
                             }
                         }
@@ -308,7 +308,7 @@ impl ToTokens for Field {
                             #var_name.0.iter().try_for_each(|id_or| {
                                 if let Some(typed_id) = id_or.id() {
                                     let id = typed_id.id();
-                                    let t = ifc.data.get_untyped(id);
+                                    let t = ifc.data.try_get_untyped(id)?;
                                     #single
                                 }
 
-- 
2.43.0


From 6a2dd86d720d8c3f36b8ec846a58a6c9c399ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 02/14] fix: reject timestamps that are out of range or
 malformed instead of panicking

---
 ifc_rs/src/meta/header/deserialize.rs | 12 ++++++------
 ifc_rs/src/parser/timestamp.rs        |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 16c42fe..b9cf962 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -114,18 +114,18 @@ impl Header {
     }
 
     fn p_name<'a>() -> impl IFCParser<'a, FileDetails> {
-        // TODO: Better ideas for failing here
-        fn time_from_string(s: String) -> DateTime<Utc> {
-            let date_res = DateTime::parse_from_rfc3339(s.as_str())
-                .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()));
-            date_res.unwrap().into()
+        fn time_from_string(s: String) -> Option<DateTime<Utc>> {
+            DateTime::parse_from_rfc3339(s.as_str())
+                .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()))
+                .map(Into::into)
+                .ok()
         }
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
             p_quote_word().map(FileName),
         ));
-        let mut p_time = p_quote_word().map(time_from_string).map(TimeStamp);
+        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index 1548461..c2a6c67 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -24,7 +24,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.map(|i| Self(chrono::DateTime::from_timestamp(i, 0).unwrap()))
+        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
-- 
2.43.0


From 35c3311f62107d7bcc4622900f7a944c54133319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 03/14] fix: keep semicolons in quotes or comments of
 unsupported objects

---
 ifc_rs/src/parser/dummy.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index 823b343..4d9afb0 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -18,10 +18,17 @@ impl IFCParse for Dummy {
     where
         Self: Sized,
     {
-        use super::p_space_or_comment_surrounded;
-        use winnow::{combinator::repeat_till, token::any, Parser};
+        use super::{p_comment, p_quote_word, p_space_or_comment_surrounded};
+        use winnow::{
+            combinator::{alt, repeat_till},
+            token::any,
+            Parser,
+        };
 
-        repeat_till(.., any, p_space_or_comment_surrounded(";"))
+        // a semicolon within quotes or a comment doesn't end the object
+        let p_chunk = alt((p_quote_word().take(), p_comment().take(), any.take()));
+
+        repeat_till(.., p_chunk, p_space_or_comment_surrounded(";"))
             .map(|(s, _): (String, _)| Self { s })
     }
 }
-- 
2.43.0


From d2dca3ce81c0f585833c7191eda1baa6ff725517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 04/14] fix: double quotes within written strings, never split
 such strings on read

---
 ifc_rs/src/meta/header/serialize.rs | 21 +++++++++++++++------
 ifc_rs/src/parser/mod.rs            |  8 +++++++-
 ifc_rs/src/parser/string.rs         | 16 ++++++++++++----
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/ifc_rs/src/meta/header/serialize.rs b/ifc_rs/src/meta/header/serialize.rs
index a59bea5..9f4a569 100644
--- a/ifc_rs/src/meta/header/serialize.rs
+++ b/ifc_rs/src/meta/header/serialize.rs
@@ -8,6 +8,7 @@ use super::{
     schema::FileSchemas,
     Header,
 };
+use crate::parser::escape_quotes;
 
 impl Display for Header {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
@@ -54,7 +55,7 @@ impl Display for ViewDefinition {
 
 impl Display for FileDetails {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.name.0)?;
+        write!(f, "'{name}'", name = escape_quotes(&self.name.0))?;
         write!(f, ",")?;
         write!(
             f,
@@ -68,7 +69,7 @@ impl Display for FileDetails {
             authors = self
                 .author
                 .iter()
-                .map(|author| format!("'{a}'", a = author.0))
+                .map(|author| format!("'{a}'", a = escape_quotes(&author.0)))
                 .join(",")
         )?;
         write!(f, ",")?;
@@ -78,15 +79,23 @@ impl Display for FileDetails {
             orgs = self
                 .organization
                 .iter()
-                .map(|org| format!("'{o}'", o = org.0))
+                .map(|org| format!("'{o}'", o = escape_quotes(&org.0)))
                 .join(",")
         )?;
         write!(f, ",")?;
-        write!(f, "'{prep_v}'", prep_v = self.preprocessor_version.0)?;
+        write!(
+            f,
+            "'{prep_v}'",
+            prep_v = escape_quotes(&self.preprocessor_version.0)
+        )?;
         write!(f, ",")?;
-        write!(f, "'{sys}'", sys = self.originating_system.0)?;
+        write!(
+            f,
+            "'{sys}'",
+            sys = escape_quotes(&self.originating_system.0)
+        )?;
         write!(f, ",")?;
-        write!(f, "'{auth}'", auth = self.authorization.0)?;
+        write!(f, "'{auth}'", auth = escape_quotes(&self.authorization.0))?;
         Ok(())
     }
 }
diff --git a/ifc_rs/src/parser/mod.rs b/ifc_rs/src/parser/mod.rs
index 0322e8d..d28f117 100644
--- a/ifc_rs/src/parser/mod.rs
+++ b/ifc_rs/src/parser/mod.rs
@@ -55,8 +55,14 @@ pub(crate) fn p_word_until<'a>(end: char) -> impl IFCParser<'a, String> {
     take_while(.., move |c: char| c != end).map(|x: &str| x.to_owned())
 }
 
+// quotes within a quoted word are doubled
 pub(crate) fn p_quote_word<'a>() -> impl IFCParser<'a, String> {
-    delimited("'", p_word_until('\''), "'")
+    delimited("'", separated(1.., p_word_until('\''), "''"), "'")
+        .map(|parts: Vec<_>| parts.join("'"))
+}
+
+pub(crate) fn escape_quotes(s: impl AsRef<str>) -> String {
+    s.as_ref().replace('\'', "''")
 }
 
 pub(crate) fn p_comment<'a>() -> impl IFCParser<'a, ()> {
diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index 74a0e3e..8eb975d 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -1,8 +1,11 @@
 use std::fmt::Display;
 
-use winnow::Parser;
+use winnow::{
+    combinator::{delimited, not, terminated},
+    Parser,
+};
 
-use crate::parser::{p_quote_word, IFCParse, IFCParser};
+use crate::parser::{escape_quotes, p_word_until, IFCParse, IFCParser};
 
 // IFC doesn't support UTF8 in all versions and uses a special encoding for things like
 // german umlaute. The easiest thing to use it `\X2\<unicode sequence>\X0\`
@@ -52,12 +55,17 @@ impl IFCParse for StringPrimitive {
     where
         Self: Sized,
     {
-        p_quote_word().map(Self::from)
+        // strings with doubled quotes aren't supported: never split them into several strings
+        terminated(delimited("'", p_word_until('\''), "'"), not("'")).map(Self::from)
     }
 }
 
 impl Display for StringPrimitive {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{label}'", label = translate_encode(self.0.as_str()))
+        write!(
+            f,
+            "'{label}'",
+            label = escape_quotes(translate_encode(self.0.as_str()))
+        )
     }
 }
-- 
2.43.0


From 0cde54be03b52e0e30c04a8ee116f154e129bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 05/14] fix: verify the owner history of relations and property
 sets like of all other objects

---
 ifc_rs/src/properties/set.rs                               | 1 +
 ifc_rs/src/relations/rel_aggregates.rs                     | 1 +
 ifc_rs/src/relations/rel_associates_material.rs            | 1 +
 ifc_rs/src/relations/rel_contained_in_spatial_structure.rs | 1 +
 ifc_rs/src/relations/rel_declares.rs                       | 1 +
 ifc_rs/src/relations/rel_defines_by_properties.rs          | 1 +
 ifc_rs/src/relations/rel_defines_by_type.rs                | 1 +
 ifc_rs/src/relations/rel_fills_element.rs                  | 1 +
 ifc_rs/src/relations/rel_voids_element.rs                  | 1 +
 9 files changed, 9 insertions(+)

diff --git a/ifc_rs/src/properties/set.rs b/ifc_rs/src/properties/set.rs
index 009dfa3..392b0d6 100644
--- a/ifc_rs/src/properties/set.rs
+++ b/ifc_rs/src/properties/set.rs
@@ -31,6 +31,7 @@ use crate::{parser::*, prelude::*};
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcpropertyset.htm
 #[derive(IfcVerify)]
 pub struct PropertySet {
+    #[inherited]
     root: Root,
 
     /// Contained set of properties. For property sets defined as part of the IFC Object model, the
diff --git a/ifc_rs/src/relations/rel_aggregates.rs b/ifc_rs/src/relations/rel_aggregates.rs
index 3ebd024..ec06747 100644
--- a/ifc_rs/src/relations/rel_aggregates.rs
+++ b/ifc_rs/src/relations/rel_aggregates.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelaggregates.htm
 #[derive(IfcVerify)]
 pub struct RelAggregates {
+    #[inherited]
     root: Root,
 
     /// The object definition, either an object type or an object
diff --git a/ifc_rs/src/relations/rel_associates_material.rs b/ifc_rs/src/relations/rel_associates_material.rs
index 014a65c..74d16c7 100644
--- a/ifc_rs/src/relations/rel_associates_material.rs
+++ b/ifc_rs/src/relations/rel_associates_material.rs
@@ -18,6 +18,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelassociatesmaterial.htm
 #[derive(IfcVerify)]
 pub struct RelAssociatesMaterial {
+    #[inherited]
     rel_associates: RelAssociates,
 
     /// Material definition assigned to the elements or element types.
diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index f10d7b5..86085d6 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -19,6 +19,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelcontainedinspatialstructure.htm
 #[derive(IfcVerify)]
 pub struct RelContainedInSpatialStructure {
+    #[inherited]
     root: Root,
 
     /// Set of products, which are contained within this level of the
diff --git a/ifc_rs/src/relations/rel_declares.rs b/ifc_rs/src/relations/rel_declares.rs
index 0af6c46..170d5ab 100644
--- a/ifc_rs/src/relations/rel_declares.rs
+++ b/ifc_rs/src/relations/rel_declares.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldeclares.htm
 #[derive(IfcVerify)]
 pub struct RelDeclares {
+    #[inherited]
     root: Root,
 
     /// Reference to the IfcProject to which additional information is assigned.
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index a53a448..e4590d6 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -26,6 +26,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcreldefinesbyproperties.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByProperties {
+    #[inherited]
     root: Root,
 
     /// Reference to the objects (or single object) to which the property definition applies.
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index b3c3c53..ca2747f 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -22,6 +22,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldefinesbytype.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByType {
+    #[inherited]
     root: Root,
 
     pub related_objects: IfcList<Id>,
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 7eeda55..1dc8dd2 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -17,6 +17,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifcproductextension/lexical/ifcrelfillselement.htm
 #[derive(IfcVerify)]
 pub struct RelFillsElement {
+    #[inherited]
     root: Root,
     /// Opening Element being filled by virtue of this relationship.
     relating_opening_element: TypedId<OpeningElement>,
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 3ab148b..3430394 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -20,6 +20,7 @@ use crate::{
 
 #[derive(IfcVerify)]
 pub struct RelVoidsElement {
+    #[inherited]
     root: Root,
     /// Reference to element in which a void is created by associated feature
     /// subtraction element.
-- 
2.43.0


From 27782b67e702879089068eea0d2ec980b28bbeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 06/14] fix: shading devices may be contained in a storey

---
 .../relations/rel_contained_in_spatial_structure.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index 86085d6..9ccb8db 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -24,7 +24,18 @@ pub struct RelContainedInSpatialStructure {
 
     /// Set of products, which are contained within this level of the
     /// spatial structure hierarchy.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(
+        Site,
+        Building,
+        Storey,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub related_elements: IfcList<Id>,
 
     /// Spatial structure element, within which the element is
-- 
2.43.0


From 51db6a1fda77d752c58195733fcc9164368880e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 07/14] fix: true north is a direction in sub contexts and can
 be set to one in contexts

---
 ifc_rs/src/geometry/representation_context/mod.rs    | 4 ++--
 ifc_rs/src/geometry/representation_subcontext/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ifc_rs/src/geometry/representation_context/mod.rs b/ifc_rs/src/geometry/representation_context/mod.rs
index a6b0b01..96691fd 100644
--- a/ifc_rs/src/geometry/representation_context/mod.rs
+++ b/ifc_rs/src/geometry/representation_context/mod.rs
@@ -70,9 +70,9 @@ impl GeometricRepresentationContext {
         self
     }
 
-    pub fn true_north<A: AxisPlacement>(
+    pub fn true_north<D: IfcType>(
         mut self,
-        direction: impl Into<IdOr<A>>,
+        direction: impl Into<IdOr<D>>,
         ifc: &mut IFC,
     ) -> Self {
         self.true_north = direction.into().or_insert(ifc).id().into();
diff --git a/ifc_rs/src/geometry/representation_subcontext/mod.rs b/ifc_rs/src/geometry/representation_subcontext/mod.rs
index 095b0ae..9dd69cf 100644
--- a/ifc_rs/src/geometry/representation_subcontext/mod.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/mod.rs
@@ -73,7 +73,7 @@ pub struct GeometricRepresentationSubContext {
     /// positive Y axis of the project coordinate system equals the geographic northing direction.
     ///
     /// NOTE  If a geographic placement is provided using IfcMapConversion then the true north is for information only. In case of inconsistency, the value provided with IfcMapConversion shall take precedence.
-    #[ifc_types(Axis2D, Axis3D)]
+    #[ifc_types(Direction2D, Direction3D)]
     pub true_north: OptionalParameter<Id>,
 
     /// Parent context from which the sub context derives its world coordinate
-- 
2.43.0


From a0c03c7e0b3ed2bf61f915c2c81d1fbb80ee5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 08/14] fix: spelling of the electrical units, coulomb and the
 commissioning engineer role

---
 ifc_rs/src/objects/actor_role/mod.rs |  2 +-
 ifc_rs/src/units/name.rs             |  2 +-
 ifc_rs/src/units/unit_enum.rs        | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ifc_rs/src/objects/actor_role/mod.rs b/ifc_rs/src/objects/actor_role/mod.rs
index 500a923..bb2f890 100644
--- a/ifc_rs/src/objects/actor_role/mod.rs
+++ b/ifc_rs/src/objects/actor_role/mod.rs
@@ -65,7 +65,7 @@ pub enum Role {
     FacilitiesManager,
     #[strum(to_string = ".CIVILENGINEER.")]
     CivilEngineer,
-    #[strum(to_string = ".COMISSIONENGINEER.")]
+    #[strum(to_string = ".COMMISSIONINGENGINEER.")]
     ComissionEngineer,
     #[strum(to_string = ".ENGINEER.")]
     Engineer,
diff --git a/ifc_rs/src/units/name.rs b/ifc_rs/src/units/name.rs
index 570943e..76f7069 100644
--- a/ifc_rs/src/units/name.rs
+++ b/ifc_rs/src/units/name.rs
@@ -24,7 +24,7 @@ pub enum IfcUnitName {
     Candela,
 
     /// Unit for electric charge.
-    #[strum(to_string = ".COULOUMB.")]
+    #[strum(to_string = ".COULOMB.")]
     Couloumb,
 
     /// Unit for volume.
diff --git a/ifc_rs/src/units/unit_enum.rs b/ifc_rs/src/units/unit_enum.rs
index 39ea217..b95904c 100644
--- a/ifc_rs/src/units/unit_enum.rs
+++ b/ifc_rs/src/units/unit_enum.rs
@@ -28,27 +28,27 @@ pub enum IfcUnitEnum {
     DoseEquivalentUnit,
 
     /// Represents units of electric capacitance, such as "Farad"
-    #[strum(to_string = ".ELCTRICCAPACITANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCAPACITANCEUNIT.")]
     ElectricCapacitanceUnit,
 
     /// Represents units of electric charge, such as "Coulomb"
-    #[strum(to_string = ".ELCTRICCHARGEUNIT.")]
+    #[strum(to_string = ".ELECTRICCHARGEUNIT.")]
     ElectricChargeUnit,
 
     /// Represents units of electric conductance, such as "Siemens"
-    #[strum(to_string = ".ELCTRICCONDUCTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCONDUCTANCEUNIT.")]
     ElectricConductanceUnit,
 
     /// Represents units of electric current, such as "Ampere"
-    #[strum(to_string = ".ELCTRICCURRENTUNIT.")]
+    #[strum(to_string = ".ELECTRICCURRENTUNIT.")]
     ElectricCurrentUnit,
 
     /// Represents units of electric resistance, such as "Ohm"
-    #[strum(to_string = ".ELCTRICRESISTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICRESISTANCEUNIT.")]
     ElectricResistanceUnit,
 
     /// Represents units of electric voltage, such as "Volt"
-    #[strum(to_string = ".ELCTRICVOLTAGEUNIT.")]
+    #[strum(to_string = ".ELECTRICVOLTAGEUNIT.")]
     ElectricVoltageUnit,
 
     /// Represents units of energy, such as "Joule"
-- 
2.43.0


From 52dfc6eaccb4c5a6d2a52ac9b03e5bb07c0406d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 09/14] fix: accept blanks and comments next to all brackets

---
 ifc_rs/src/geometry/axis/deserialize.rs             | 13 ++++++++-----
 .../src/geometry/indexed_poly_curve/deserialize.rs  |  9 ++++++---
 ifc_rs/src/geometry/point_list/deserialize.rs       | 13 ++++++++-----
 .../geometry/representation_context/deserialize.rs  |  9 ++++++---
 .../representation_subcontext/deserialize.rs        |  9 ++++++---
 ifc_rs/src/objects/actor_role/deserialize.rs        |  9 ++++++---
 ifc_rs/src/objects/address/deserialize.rs           | 10 +++++-----
 ifc_rs/src/objects/application/deserialize.rs       |  8 +++++---
 ifc_rs/src/objects/organization/deserialize.rs      |  7 ++++---
 ifc_rs/src/objects/owner_history/deserialize.rs     |  7 ++++---
 ifc_rs/src/objects/person/deserialize.rs            |  9 ++++++---
 ifc_rs/src/objects/person_and_org/deserialize.rs    |  9 ++++++---
 ifc_rs/src/parser/list.rs                           |  2 +-
 ifc_rs/src/values/bool.rs                           |  4 ++--
 ifc_rs/src/values/identifier.rs                     |  4 ++--
 ifc_rs/src/values/label.rs                          |  4 ++--
 ifc_rs/src/values/real.rs                           |  4 ++--
 ifc_rs/src/values/thermal_transmittance.rs          |  4 ++--
 18 files changed, 81 insertions(+), 53 deletions(-)

diff --git a/ifc_rs/src/geometry/axis/deserialize.rs b/ifc_rs/src/geometry/axis/deserialize.rs
index 48cecf4..e673d8b 100644
--- a/ifc_rs/src/geometry/axis/deserialize.rs
+++ b/ifc_rs/src/geometry/axis/deserialize.rs
@@ -6,15 +6,18 @@ use winnow::{
 use super::{Axis2D, Axis3D};
 use crate::{
     id::TypedId,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for Axis2D {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCAXIS2PLACEMENT2D(",
+            p_space_or_comment_surrounded("IFCAXIS2PLACEMENT2D("),
             separated_pair(TypedId::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(location, local_x)| Self { location, local_x })
     }
@@ -23,7 +26,7 @@ impl IFCParse for Axis2D {
 impl IFCParse for Axis3D {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCAXIS2PLACEMENT3D(",
+            p_space_or_comment_surrounded("IFCAXIS2PLACEMENT3D("),
             (
                 TypedId::parse(),
                 Comma::parse(),
@@ -31,7 +34,7 @@ impl IFCParse for Axis3D {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(location, _, local_z, _, local_x)| Self {
             location,
diff --git a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
index 9082733..21cc0d2 100644
--- a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
+++ b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
@@ -3,13 +3,16 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     geometry::indexed_poly_curve::IndexedPolyCurve,
     id::Id,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for IndexedPolyCurve {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCINDEXEDPOLYCURVE(",
+            p_space_or_comment_surrounded("IFCINDEXEDPOLYCURVE("),
             (
                 Id::parse(),
                 Comma::parse(),
@@ -17,7 +20,7 @@ impl IFCParse for IndexedPolyCurve {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(points, _, segments, _, self_intersect)| Self {
             points,
diff --git a/ifc_rs/src/geometry/point_list/deserialize.rs b/ifc_rs/src/geometry/point_list/deserialize.rs
index 03b613d..e853344 100644
--- a/ifc_rs/src/geometry/point_list/deserialize.rs
+++ b/ifc_rs/src/geometry/point_list/deserialize.rs
@@ -2,7 +2,10 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     geometry::point_list::{PointList2D, PointList3D},
-    parser::{comma::Comma, list::IfcList, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment_surrounded,
+        IFCParse, IFCParser,
+    },
 };
 
 impl IFCParse for PointList2D {
@@ -11,9 +14,9 @@ impl IFCParse for PointList2D {
         Self: Sized,
     {
         delimited(
-            "IFCCARTESIANPOINTLIST2D(",
+            p_space_or_comment_surrounded("IFCCARTESIANPOINTLIST2D("),
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
@@ -28,9 +31,9 @@ impl IFCParse for PointList3D {
         Self: Sized,
     {
         delimited(
-            "IFCCARTESIANPOINTLIST3D(",
+            p_space_or_comment_surrounded("IFCCARTESIANPOINTLIST3D("),
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
diff --git a/ifc_rs/src/geometry/representation_context/deserialize.rs b/ifc_rs/src/geometry/representation_context/deserialize.rs
index 1c3bde4..f24532c 100644
--- a/ifc_rs/src/geometry/representation_context/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_context/deserialize.rs
@@ -2,14 +2,17 @@ use super::GeometricRepresentationContext;
 use crate::{
     geometry::dimension_count::DimensionCount,
     id::Id,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for GeometricRepresentationContext {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             GeometricRepresentationContext {
-                _: "IFCGEOMETRICREPRESENTATIONCONTEXT(",
+                _: p_space_or_comment_surrounded("IFCGEOMETRICREPRESENTATIONCONTEXT("),
                 context_identifier: OptionalParameter::parse(),
                 _: Comma::parse(),
                 context_type: OptionalParameter::parse(),
@@ -21,7 +24,7 @@ impl IFCParse for GeometricRepresentationContext {
                 world_coord_system: Id::parse(),
                 _: Comma::parse(),
                 true_north: OptionalParameter::parse(),
-                _: ");",
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
index 33463a6..d96dc67 100644
--- a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
@@ -6,14 +6,17 @@ use crate::{
         representation_subcontext::GeometricRepresentationSubContext,
     },
     id::{Id, TypedId},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for GeometricRepresentationSubContext {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             GeometricRepresentationSubContext {
-                _: "IFCGEOMETRICREPRESENTATIONSUBCONTEXT(",
+                _: p_space_or_comment_surrounded("IFCGEOMETRICREPRESENTATIONSUBCONTEXT("),
                 context_identifier: OptionalParameter::parse(),
                 _: Comma::parse(),
                 context_type: OptionalParameter::parse(),
@@ -33,7 +36,7 @@ impl IFCParse for GeometricRepresentationSubContext {
                 target_view: GeometricProjection::parse(),
                 _: Comma::parse(),
                 user_defined_target_view: OptionalParameter::parse(),
-                _: ");"
+                _: p_space_or_comment_surrounded(");")
             }
         }
     }
diff --git a/ifc_rs/src/objects/actor_role/deserialize.rs b/ifc_rs/src/objects/actor_role/deserialize.rs
index 6931a29..eda0d4c 100644
--- a/ifc_rs/src/objects/actor_role/deserialize.rs
+++ b/ifc_rs/src/objects/actor_role/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::actor_role::{ActorRole, Role},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for ActorRole {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCACTORROLE(",
+            p_space_or_comment_surrounded("IFCACTORROLE("),
             (
                 Role::parse(),
                 Comma::parse(),
@@ -16,7 +19,7 @@ impl IFCParse for ActorRole {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(role, _, user_defined_role, _, description)| Self {
             role,
diff --git a/ifc_rs/src/objects/address/deserialize.rs b/ifc_rs/src/objects/address/deserialize.rs
index 90d1a22..a7a7235 100644
--- a/ifc_rs/src/objects/address/deserialize.rs
+++ b/ifc_rs/src/objects/address/deserialize.rs
@@ -2,13 +2,13 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::address::{PostalAddress, TelecomAddress},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser, p_space_or_comment_surrounded},
 };
 
 impl IFCParse for TelecomAddress {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCTELECOMADDRESS(",
+            p_space_or_comment_surrounded("IFCTELECOMADDRESS("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -26,7 +26,7 @@ impl IFCParse for TelecomAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
@@ -62,7 +62,7 @@ impl IFCParse for TelecomAddress {
 impl IFCParse for PostalAddress {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPOSTALADDRESS(",
+            p_space_or_comment_surrounded("IFCPOSTALADDRESS("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -84,7 +84,7 @@ impl IFCParse for PostalAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/application/deserialize.rs b/ifc_rs/src/objects/application/deserialize.rs
index 596ee75..ce48ebf 100644
--- a/ifc_rs/src/objects/application/deserialize.rs
+++ b/ifc_rs/src/objects/application/deserialize.rs
@@ -1,14 +1,16 @@
 use crate::{
     id::TypedId,
     objects::application::Application,
-    parser::{comma::Comma, string::StringPrimitive, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
+    },
 };
 
 impl IFCParse for Application {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             Application {
-                _ : "IFCAPPLICATION(",
+                _ : p_space_or_comment_surrounded("IFCAPPLICATION("),
                 application_developer: TypedId::parse(),
                 _: Comma::parse(),
                 version: StringPrimitive::parse(),
@@ -16,7 +18,7 @@ impl IFCParse for Application {
                 application_full_name: StringPrimitive::parse(),
                 _: Comma::parse(),
                 application_identifier: StringPrimitive::parse(),
-                _: ");",
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/objects/organization/deserialize.rs b/ifc_rs/src/objects/organization/deserialize.rs
index b853465..fc35516 100644
--- a/ifc_rs/src/objects/organization/deserialize.rs
+++ b/ifc_rs/src/objects/organization/deserialize.rs
@@ -3,14 +3,15 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     objects::organization::Organization,
     parser::{
-        comma::Comma, optional::OptionalParameter, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
+        string::StringPrimitive, IFCParse, IFCParser,
     },
 };
 
 impl IFCParse for Organization {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCORGANIZATION(",
+            p_space_or_comment_surrounded("IFCORGANIZATION("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -22,7 +23,7 @@ impl IFCParse for Organization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(id, _, name, _, description, _, roles, _, addresses)| Self {
diff --git a/ifc_rs/src/objects/owner_history/deserialize.rs b/ifc_rs/src/objects/owner_history/deserialize.rs
index ece44d9..0b43011 100644
--- a/ifc_rs/src/objects/owner_history/deserialize.rs
+++ b/ifc_rs/src/objects/owner_history/deserialize.rs
@@ -3,14 +3,15 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     objects::{change_action::ChangeAction, owner_history::OwnerHistory},
     parser::{
-        comma::Comma, optional::OptionalParameter, timestamp::IfcTimestamp, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
+        timestamp::IfcTimestamp, IFCParse, IFCParser,
     },
 };
 
 impl IFCParse for OwnerHistory {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCOWNERHISTORY(",
+            p_space_or_comment_surrounded("IFCOWNERHISTORY("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -28,7 +29,7 @@ impl IFCParse for OwnerHistory {
                 Comma::parse(),
                 IfcTimestamp::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person/deserialize.rs b/ifc_rs/src/objects/person/deserialize.rs
index c235276..c72f47d 100644
--- a/ifc_rs/src/objects/person/deserialize.rs
+++ b/ifc_rs/src/objects/person/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::person::Person,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for Person {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPERSON(",
+            p_space_or_comment_surrounded("IFCPERSON("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -26,7 +29,7 @@ impl IFCParse for Person {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person_and_org/deserialize.rs b/ifc_rs/src/objects/person_and_org/deserialize.rs
index 860315c..33170d0 100644
--- a/ifc_rs/src/objects/person_and_org/deserialize.rs
+++ b/ifc_rs/src/objects/person_and_org/deserialize.rs
@@ -3,13 +3,16 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     id::Id,
     objects::person_and_org::PersonAndOrganization,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for PersonAndOrganization {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPERSONANDORGANIZATION(",
+            p_space_or_comment_surrounded("IFCPERSONANDORGANIZATION("),
             (
                 Id::parse(),
                 Comma::parse(),
@@ -17,7 +20,7 @@ impl IFCParse for PersonAndOrganization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(the_person, _, the_organization, _, roles)| Self {
             the_person: the_person.into(),
diff --git a/ifc_rs/src/parser/list.rs b/ifc_rs/src/parser/list.rs
index 972bb21..806a8af 100644
--- a/ifc_rs/src/parser/list.rs
+++ b/ifc_rs/src/parser/list.rs
@@ -30,7 +30,7 @@ impl<T: IFCParse> IFCParse for IfcList<T> {
     {
         let p_t_opt_comma = terminated(T::parse(), p_space_or_comment_surrounded(opt(",")));
         preceded(
-            "(",
+            p_space_or_comment_surrounded("("),
             repeat_till(.., p_t_opt_comma, ")").map(|(v, _): (Vec<_>, _)| v),
         )
         .map(Self)
diff --git a/ifc_rs/src/values/bool.rs b/ifc_rs/src/values/bool.rs
index 9d5a781..475ecb5 100644
--- a/ifc_rs/src/values/bool.rs
+++ b/ifc_rs/src/values/bool.rs
@@ -16,9 +16,9 @@ impl IFCParse for BoolValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCBOOLEAN", "IfcBoolean")), "("),
+            p_space_or_comment_surrounded((alt(("IFCBOOLEAN", "IfcBoolean")), "(")),
             BoolPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/identifier.rs b/ifc_rs/src/values/identifier.rs
index 70229fc..1ceccfd 100644
--- a/ifc_rs/src/values/identifier.rs
+++ b/ifc_rs/src/values/identifier.rs
@@ -16,9 +16,9 @@ impl IFCParse for IdentifierValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCIDENTIFIER", "IfcIdentifier")), "("),
+            p_space_or_comment_surrounded((alt(("IFCIDENTIFIER", "IfcIdentifier")), "(")),
             StringPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/label.rs b/ifc_rs/src/values/label.rs
index c380be8..35487b7 100644
--- a/ifc_rs/src/values/label.rs
+++ b/ifc_rs/src/values/label.rs
@@ -16,9 +16,9 @@ impl IFCParse for LabelValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCLABEL", "IfcLabel")), "("),
+            p_space_or_comment_surrounded((alt(("IFCLABEL", "IfcLabel")), "(")),
             StringPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/real.rs b/ifc_rs/src/values/real.rs
index 990c66f..f8c459d 100644
--- a/ifc_rs/src/values/real.rs
+++ b/ifc_rs/src/values/real.rs
@@ -17,9 +17,9 @@ impl IFCParse for RealValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCREAL", "IfcReal")), "("),
+            p_space_or_comment_surrounded((alt(("IFCREAL", "IfcReal")), "(")),
             RealPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/thermal_transmittance.rs b/ifc_rs/src/values/thermal_transmittance.rs
index a8047d1..b1d276f 100644
--- a/ifc_rs/src/values/thermal_transmittance.rs
+++ b/ifc_rs/src/values/thermal_transmittance.rs
@@ -21,10 +21,10 @@ impl IFCParse for ThermalTransmittanceValue {
                     "IFCTHERMALTRANSMITTANCEMEASURE",
                     "IfcThermaltransmittancemeasure",
                 )),
-                "(",
+                p_space_or_comment_surrounded("("),
             ),
             RealPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
-- 
2.43.0


From 2fc7b3df9a7a3f35747b09939b253079e65f42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 10/14] fix: relate space types to their spaces

---
 ifc_rs/src/ifc_builder/storey.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ifc_rs/src/ifc_builder/storey.rs b/ifc_rs/src/ifc_builder/storey.rs
index e557af4..c504935 100644
--- a/ifc_rs/src/ifc_builder/storey.rs
+++ b/ifc_rs/src/ifc_builder/storey.rs
@@ -283,6 +283,25 @@ impl<'a> Drop for IfcStoreyBuilder<'a> {
                 spatial_relation.relate_structure(*shading_device, &mut self.project.ifc);
         }
 
+        // spaces ----------------------
+
+        // relate space type to space
+        for (index, (space_type, spaces)) in self.space_type_to_space.iter().enumerate() {
+            let mut space_space_type_relation = RelDefinesByType::new(
+                format!("SpaceTypeToSpace{index}"),
+                *space_type,
+                &mut self.project.ifc,
+            )
+            .owner_history(self.owner_history, &mut self.project.ifc);
+
+            for space in spaces {
+                space_space_type_relation =
+                    space_space_type_relation.relate_obj(*space, &mut self.project.ifc)
+            }
+
+            self.project.ifc.data.insert_new(space_space_type_relation);
+        }
+
         // insert all spatial relations of this story
         self.project.ifc.data.insert_new(spatial_relation);
 
-- 
2.43.0


From 042652e9c2fcfeee142b120a827d026ba0a14080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 11/14] fix: relate the property set of a new storey to the
 storey

---
 ifc_rs/src/ifc_builder/building.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/building.rs b/ifc_rs/src/ifc_builder/building.rs
index efb07bc..bfbff8c 100644
--- a/ifc_rs/src/ifc_builder/building.rs
+++ b/ifc_rs/src/ifc_builder/building.rs
@@ -57,7 +57,8 @@ impl<'a> IfcBuildingBuilder<'a> {
             IfcValue::Real(elevation.into()),
             None,
         );
-        _ = property_builder.finish();
+        let property_set = property_builder.finish();
+        storey_builder.relate_properties_object(property_set, storey_id);
 
         storey_builder
     }
-- 
2.43.0


From 4de15cb93a8b94084276a788f99e48601a1d2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 12/14] fix: keep the identifier of representations that are
 transformed in a storey

---
 ifc_rs/src/ifc_builder/transforms.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/transforms.rs b/ifc_rs/src/ifc_builder/transforms.rs
index d79639b..bd745ce 100644
--- a/ifc_rs/src/ifc_builder/transforms.rs
+++ b/ifc_rs/src/ifc_builder/transforms.rs
@@ -173,9 +173,20 @@ impl<'a> IfcStoreyBuilder<'a> {
                         shape_repr,
                         &mut self.project.ifc,
                     );
+
+                    let shape_repr_identifier = self
+                        .project
+                        .ifc
+                        .data
+                        .get(shape_repr)
+                        .representation_identifier
+                        .custom()
+                        .copied()
+                        .unwrap_or(RepresentationIdentifier::Body);
+
                     let r = ShapeRepresentation::new(
                         self.sub_context,
-                        RepresentationIdentifier::Body,
+                        shape_repr_identifier,
                         RepresentationType::MappedRepresentation,
                         &mut self.project.ifc,
                     )
-- 
2.43.0


From a70c14efb283d432d8d5656791d6de6dae03198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 13/14] fix: an arbitrary wall extruded along the z axis gets a
 finite axis

---
 ifc_rs/src/ifc_builder/walls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/walls.rs b/ifc_rs/src/ifc_builder/walls.rs
index f56067b..a59c5e5 100644
--- a/ifc_rs/src/ifc_builder/walls.rs
+++ b/ifc_rs/src/ifc_builder/walls.rs
@@ -222,7 +222,12 @@ impl<'a> IfcStoreyBuilder<'a> {
     ) -> IfcWallBuilder<'a, 'b> {
         let wall_thickness = self.calculate_material_layer_set_thickness(material);
 
-        let curve_axis_dir = wall_information.direction.cross(DVec3::Z).normalize();
+        // a wall extruded along the z axis has no axis of its own in the plane
+        let curve_axis_dir = wall_information
+            .direction
+            .cross(DVec3::Z)
+            .try_normalize()
+            .unwrap_or(DVec3::X);
         let curve_axis_representation = ShapeRepresentation::new(
             self.sub_context,
             RepresentationIdentifier::Axis,
-- 
2.43.0


From 3a4769b095979fc1f229d933ffa21c6350b18467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 14/14] fix: write a number that is cut to 15 digits the way it
 is written after being read

---
 ifc_rs/src/parser/real.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ifc_rs/src/parser/real.rs b/ifc_rs/src/parser/real.rs
index d34b0d5..05b8a55 100644
--- a/ifc_rs/src/parser/real.rs
+++ b/ifc_rs/src/parser/real.rs
@@ -125,13 +125,18 @@ pub(crate) fn format_real_primitive(d: f64) -> String {
         .count()
         > 10;
 
-    let fmt = if is_scientific {
-        format_sci_double
-    } else {
-        format_non_sci_double
-    };
+    if !is_scientific {
+        return format_non_sci_double(d);
+    }
+
+    let sci = format_sci_double(d);
 
-    fmt(d)
+    // the digits cut off may have been the ones that called for the scientific
+    // form, write the number as it's written again after being read
+    match sci.parse() {
+        Ok(rounded) if rounded != d => format_real_primitive(rounded),
+        _ => sci,
+    }
 }
 
 pub(crate) fn format_sci_double(d: f64) -> String {
-- 
2.43.0

