From 4337882af90f892f25c9198d4a585f507007d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 01/18] fix: report references to missing entries instead of
 panicking while loading

---
 ifc_rs/src/meta/datamap/mod.rs    |  9 +++++++++
 ifc_rs_verify_derive/src/field.rs | 24 ++++++++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/ifc_rs/src/meta/datamap/mod.rs b/ifc_rs/src/meta/datamap/mod.rs
index 73531d6..69ccacf 100644
--- a/ifc_rs/src/meta/datamap/mod.rs
+++ b/ifc_rs/src/meta/datamap/mod.rs
@@ -55,6 +55,15 @@ impl DataMap {
         &**self.0.get(&id.into()).unwrap()
     }
 
+    /// like [`Self::get_untyped`] but reports a missing entry instead of panicking
+    pub fn try_get_untyped(&self, id: impl Into<Id>) -> anyhow::Result<&dyn IfcType> {
+        let id = id.into();
+        self.0
+            .get(&id)
+            .map(|ifc_type| &**ifc_type)
+            .ok_or_else(|| anyhow::anyhow!("there is no entry with the ID {id}"))
+    }
+
     pub fn get_mut<T: IfcType>(&mut self, typed_id: TypedId<T>) -> &mut T {
         self.0
             .get_mut(&typed_id.id())
diff --git a/ifc_rs_verify_derive/src/field.rs b/ifc_rs_verify_derive/src/field.rs
index bfbd6bd..ac62678 100644
--- a/ifc_rs_verify_derive/src/field.rs
+++ b/ifc_rs_verify_derive/src/field.rs
@@ -149,7 +149,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name;
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.try_get_untyped(id)?;
                         #multiple
 
                     }
@@ -160,7 +160,7 @@ impl ToTokens for Field {
                     quote! {
 
                         self.#var_name.0.iter().try_for_each(|id| {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.try_get_untyped(*id)?;
                             #multiple
 
                             Ok(())
@@ -174,7 +174,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name.id();
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.try_get_untyped(id)?;
                         #single
 
                     }
@@ -186,7 +186,7 @@ impl ToTokens for Field {
 
                         self.#var_name.0.iter().try_for_each(|typed_id| {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
 
                             Ok(())
@@ -201,7 +201,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.id() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
                         }
 
@@ -215,7 +215,7 @@ impl ToTokens for Field {
                         self.#var_name.0.iter().try_for_each(|id_or| {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
                             }
 
@@ -232,7 +232,7 @@ impl ToTokens for Field {
                     quote! {
 
                         if let Some(id) = self.#var_name.custom() {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.try_get_untyped(*id)?;
                             #multiple
                         }
 
@@ -245,7 +245,7 @@ impl ToTokens for Field {
 
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|id| {
-                                let t = ifc.data.get_untyped(*id);
+                                let t = ifc.data.try_get_untyped(*id)?;
                                 #multiple
 
                                 Ok(())
@@ -261,7 +261,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.custom() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
                         }
 
@@ -275,7 +275,7 @@ impl ToTokens for Field {
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|typed_id| {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
 
                                 Ok(())
@@ -292,7 +292,7 @@ impl ToTokens for Field {
                         if let Some(id_or) = self.#var_name.custom() {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
                             }
                         }
@@ -308,7 +308,7 @@ impl ToTokens for Field {
                             #var_name.0.iter().try_for_each(|id_or| {
                                 if let Some(typed_id) = id_or.id() {
                                     let id = typed_id.id();
-                                    let t = ifc.data.get_untyped(id);
+                                    let t = ifc.data.try_get_untyped(id)?;
                                     #single
                                 }
 
-- 
2.43.0


From f6b9ab81f27b2671e0a4ee7df68c71618f08e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 02/18] fix: reject out-of-range timestamps instead of
 panicking while parsing

---
 ifc_rs/src/meta/header/deserialize.rs | 7 +++----
 ifc_rs/src/parser/timestamp.rs        | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 16c42fe..1ccf83e 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -114,18 +114,17 @@ impl Header {
     }
 
     fn p_name<'a>() -> impl IFCParser<'a, FileDetails> {
-        // TODO: Better ideas for failing here
-        fn time_from_string(s: String) -> DateTime<Utc> {
+        fn time_from_string(s: String) -> Option<DateTime<Utc>> {
             let date_res = DateTime::parse_from_rfc3339(s.as_str())
                 .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()));
-            date_res.unwrap().into()
+            date_res.ok().map(DateTime::into)
         }
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
             p_quote_word().map(FileName),
         ));
-        let mut p_time = p_quote_word().map(time_from_string).map(TimeStamp);
+        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index 1548461..c2a6c67 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -24,7 +24,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.map(|i| Self(chrono::DateTime::from_timestamp(i, 0).unwrap()))
+        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
-- 
2.43.0


From c2e4d0a074086a169c2f5f8296f494bb3c1bf65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 03/18] fix: keep unknown entries intact when a string or
 comment contains a semicolon

---
 ifc_rs/src/parser/dummy.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index 823b343..9af2e70 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -18,10 +18,17 @@ impl IFCParse for Dummy {
     where
         Self: Sized,
     {
-        use super::p_space_or_comment_surrounded;
-        use winnow::{combinator::repeat_till, token::any, Parser};
+        use super::{p_comment, p_quote_word, p_space_or_comment_surrounded};
+        use winnow::{
+            combinator::{alt, repeat_till},
+            token::any,
+            Parser,
+        };
 
-        repeat_till(.., any, p_space_or_comment_surrounded(";"))
+        // a `;` within a string or a comment doesn't end the entry
+        let p_part = alt((p_quote_word().take(), p_comment().take(), any.take()));
+
+        repeat_till(.., p_part, p_space_or_comment_surrounded(";"))
             .map(|(s, _): (String, _)| Self { s })
     }
 }
-- 
2.43.0


From 798611e66e5d50e9a717574e972a352a2ed90aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 04/18] fix: relate spaces to their space type when a storey is
 finished

---
 ifc_rs/src/ifc_builder/storey.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ifc_rs/src/ifc_builder/storey.rs b/ifc_rs/src/ifc_builder/storey.rs
index e557af4..c504935 100644
--- a/ifc_rs/src/ifc_builder/storey.rs
+++ b/ifc_rs/src/ifc_builder/storey.rs
@@ -283,6 +283,25 @@ impl<'a> Drop for IfcStoreyBuilder<'a> {
                 spatial_relation.relate_structure(*shading_device, &mut self.project.ifc);
         }
 
+        // spaces ----------------------
+
+        // relate space type to space
+        for (index, (space_type, spaces)) in self.space_type_to_space.iter().enumerate() {
+            let mut space_space_type_relation = RelDefinesByType::new(
+                format!("SpaceTypeToSpace{index}"),
+                *space_type,
+                &mut self.project.ifc,
+            )
+            .owner_history(self.owner_history, &mut self.project.ifc);
+
+            for space in spaces {
+                space_space_type_relation =
+                    space_space_type_relation.relate_obj(*space, &mut self.project.ifc)
+            }
+
+            self.project.ifc.data.insert_new(space_space_type_relation);
+        }
+
         // insert all spatial relations of this story
         self.project.ifc.data.insert_new(spatial_relation);
 
-- 
2.43.0


From cfadae963079b3c949ebfe22cd7e5ea111562b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 05/18] fix: accept every structure element in the relations
 the builders write

---
 ifc_rs/src/relations/rel_contained_in_spatial_structure.rs | 6 ++++--
 ifc_rs/src/relations/rel_fills_element.rs                  | 2 +-
 ifc_rs/src/relations/rel_voids_element.rs                  | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index f10d7b5..f06716b 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -23,13 +23,15 @@ pub struct RelContainedInSpatialStructure {
 
     /// Set of products, which are contained within this level of the
     /// spatial structure hierarchy.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(Site, Building, Storey, Space)]
+    #[ifc_types(OpeningElement, Slab, Roof, Wall, Window, Door, ShadingDevice)]
     pub related_elements: IfcList<Id>,
 
     /// Spatial structure element, within which the element is
     /// contained. Any element can only be contained within one
     /// element of the project spatial structure.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(Site, Building, Storey, Space)]
+    #[ifc_types(OpeningElement, Slab, Roof, Wall, Window, Door, ShadingDevice)]
     pub relating_structure: Id,
 }
 
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 7eeda55..48f7d80 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -22,7 +22,7 @@ pub struct RelFillsElement {
     relating_opening_element: TypedId<OpeningElement>,
     /// Reference to building element that occupies fully or partially the
     /// associated opening.
-    #[ifc_types(Building, OpeningElement, Slab, Wall, Window, Door)]
+    #[ifc_types(Building, OpeningElement, Slab, Roof, Wall, Window, Door, ShadingDevice)]
     pub related_building_element: Id,
 }
 
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 3ab148b..46af5ea 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -23,7 +23,7 @@ pub struct RelVoidsElement {
     root: Root,
     /// Reference to element in which a void is created by associated feature
     /// subtraction element.
-    #[ifc_types(Building, OpeningElement, Slab, Wall, Window)]
+    #[ifc_types(Building, OpeningElement, Slab, Roof, Wall, Window, Door, ShadingDevice)]
     pub relating_building_element: Id,
     /// Reference to the feature subtraction element which defines a void in
     /// the associated element.
-- 
2.43.0


From 1c4f96810a8b7710920091345e4787d58d44c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 06/18] fix: true north of a sub context refers to a direction

---
 ifc_rs/src/geometry/representation_subcontext/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ifc_rs/src/geometry/representation_subcontext/mod.rs b/ifc_rs/src/geometry/representation_subcontext/mod.rs
index 095b0ae..9dd69cf 100644
--- a/ifc_rs/src/geometry/representation_subcontext/mod.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/mod.rs
@@ -73,7 +73,7 @@ pub struct GeometricRepresentationSubContext {
     /// positive Y axis of the project coordinate system equals the geographic northing direction.
     ///
     /// NOTE  If a geographic placement is provided using IfcMapConversion then the true north is for information only. In case of inconsistency, the value provided with IfcMapConversion shall take precedence.
-    #[ifc_types(Axis2D, Axis3D)]
+    #[ifc_types(Direction2D, Direction3D)]
     pub true_north: OptionalParameter<Id>,
 
     /// Parent context from which the sub context derives its world coordinate
-- 
2.43.0


From 1c14be403682796d12a037301f42db7dc6a8e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 07/18] fix: verify the references of embedded base attributes

---
 ifc_rs/src/properties/material.rs                          | 1 +
 ifc_rs/src/properties/set.rs                               | 1 +
 ifc_rs/src/relations/rel_aggregates.rs                     | 1 +
 ifc_rs/src/relations/rel_associates_material.rs            | 1 +
 ifc_rs/src/relations/rel_contained_in_spatial_structure.rs | 1 +
 ifc_rs/src/relations/rel_declares.rs                       | 1 +
 ifc_rs/src/relations/rel_defines_by_properties.rs          | 1 +
 ifc_rs/src/relations/rel_defines_by_type.rs                | 1 +
 ifc_rs/src/relations/rel_fills_element.rs                  | 1 +
 ifc_rs/src/relations/rel_voids_element.rs                  | 1 +
 10 files changed, 10 insertions(+)

diff --git a/ifc_rs/src/properties/material.rs b/ifc_rs/src/properties/material.rs
index c085a4c..eae1b2e 100644
--- a/ifc_rs/src/properties/material.rs
+++ b/ifc_rs/src/properties/material.rs
@@ -16,6 +16,7 @@ use super::extended_base::{ExtendedPropertyBase, ExtendedPropertyBuilder};
 /// https://ifc43-docs.standards.buildingsmart.org/IFC/RELEASE/IFC4x3/HTML/lexical/IfcMaterialProperties.htm
 #[derive(IfcVerify)]
 pub struct MaterialProperties {
+    #[inherited]
     base: ExtendedPropertyBase,
 
     /// Reference to the material definition to which the set of properties is assigned.
diff --git a/ifc_rs/src/properties/set.rs b/ifc_rs/src/properties/set.rs
index 009dfa3..392b0d6 100644
--- a/ifc_rs/src/properties/set.rs
+++ b/ifc_rs/src/properties/set.rs
@@ -31,6 +31,7 @@ use crate::{parser::*, prelude::*};
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcpropertyset.htm
 #[derive(IfcVerify)]
 pub struct PropertySet {
+    #[inherited]
     root: Root,
 
     /// Contained set of properties. For property sets defined as part of the IFC Object model, the
diff --git a/ifc_rs/src/relations/rel_aggregates.rs b/ifc_rs/src/relations/rel_aggregates.rs
index 3ebd024..ec06747 100644
--- a/ifc_rs/src/relations/rel_aggregates.rs
+++ b/ifc_rs/src/relations/rel_aggregates.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelaggregates.htm
 #[derive(IfcVerify)]
 pub struct RelAggregates {
+    #[inherited]
     root: Root,
 
     /// The object definition, either an object type or an object
diff --git a/ifc_rs/src/relations/rel_associates_material.rs b/ifc_rs/src/relations/rel_associates_material.rs
index 014a65c..74d16c7 100644
--- a/ifc_rs/src/relations/rel_associates_material.rs
+++ b/ifc_rs/src/relations/rel_associates_material.rs
@@ -18,6 +18,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelassociatesmaterial.htm
 #[derive(IfcVerify)]
 pub struct RelAssociatesMaterial {
+    #[inherited]
     rel_associates: RelAssociates,
 
     /// Material definition assigned to the elements or element types.
diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index f06716b..9749ef2 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -19,6 +19,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelcontainedinspatialstructure.htm
 #[derive(IfcVerify)]
 pub struct RelContainedInSpatialStructure {
+    #[inherited]
     root: Root,
 
     /// Set of products, which are contained within this level of the
diff --git a/ifc_rs/src/relations/rel_declares.rs b/ifc_rs/src/relations/rel_declares.rs
index 0af6c46..170d5ab 100644
--- a/ifc_rs/src/relations/rel_declares.rs
+++ b/ifc_rs/src/relations/rel_declares.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldeclares.htm
 #[derive(IfcVerify)]
 pub struct RelDeclares {
+    #[inherited]
     root: Root,
 
     /// Reference to the IfcProject to which additional information is assigned.
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index a53a448..e4590d6 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -26,6 +26,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcreldefinesbyproperties.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByProperties {
+    #[inherited]
     root: Root,
 
     /// Reference to the objects (or single object) to which the property definition applies.
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index b3c3c53..ca2747f 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -22,6 +22,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldefinesbytype.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByType {
+    #[inherited]
     root: Root,
 
     pub related_objects: IfcList<Id>,
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 48f7d80..fd302d4 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -17,6 +17,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifcproductextension/lexical/ifcrelfillselement.htm
 #[derive(IfcVerify)]
 pub struct RelFillsElement {
+    #[inherited]
     root: Root,
     /// Opening Element being filled by virtue of this relationship.
     relating_opening_element: TypedId<OpeningElement>,
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 46af5ea..71ad3e8 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -20,6 +20,7 @@ use crate::{
 
 #[derive(IfcVerify)]
 pub struct RelVoidsElement {
+    #[inherited]
     root: Root,
     /// Reference to element in which a void is created by associated feature
     /// subtraction element.
-- 
2.43.0


From 8b39e840df52f59fd5df7131a73d59754b56d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 08/18] fix: verify further references against their declared
 entity types

---
 ifc_rs/src/objects/shared/type_object.rs          | 1 +
 ifc_rs/src/properties/extended_base.rs            | 1 +
 ifc_rs/src/properties/single_value.rs             | 1 +
 ifc_rs/src/relations/rel_defines_by_properties.rs | 1 +
 ifc_rs/src/relations/rel_defines_by_type.rs       | 1 +
 ifc_rs/src/units/shared/named_unit.rs             | 1 +
 6 files changed, 6 insertions(+)

diff --git a/ifc_rs/src/objects/shared/type_object.rs b/ifc_rs/src/objects/shared/type_object.rs
index fa9c22d..b17bc40 100644
--- a/ifc_rs/src/objects/shared/type_object.rs
+++ b/ifc_rs/src/objects/shared/type_object.rs
@@ -42,6 +42,7 @@ pub struct TypeObject {
     /// Set list of unique property sets, that are associated with the
     /// object type and are common to all object occurrences referring
     /// to this object type.
+    #[ifc_types(PropertySet)]
     pub has_property_sets: OptionalParameter<IfcList<Id>>, // TODO: Property set type
 }
 
diff --git a/ifc_rs/src/properties/extended_base.rs b/ifc_rs/src/properties/extended_base.rs
index c20440e..627c291 100644
--- a/ifc_rs/src/properties/extended_base.rs
+++ b/ifc_rs/src/properties/extended_base.rs
@@ -20,6 +20,7 @@ pub struct ExtendedPropertyBase {
     /// Description for the set of properties.
     pub description: OptionalParameter<StringPrimitive>,
     /// The set of properties provided for this extended property collection.
+    #[ifc_types(PropertySingleValue)]
     pub properties: IfcList<Id>,
 }
 
diff --git a/ifc_rs/src/properties/single_value.rs b/ifc_rs/src/properties/single_value.rs
index aaeabf1..49ccc5f 100644
--- a/ifc_rs/src/properties/single_value.rs
+++ b/ifc_rs/src/properties/single_value.rs
@@ -31,6 +31,7 @@ pub struct PropertySingleValue {
     pub value: IfcValue,
     /// Unit for the nominal value, if not given, the default value for the measure type (given by
     /// the TYPE of nominal value) is used as defined by the global unit assignment at IfcProject.
+    #[ifc_types(SiUnit, DerivedUnit, MonetaryUnit, ConversionBasedUnit)]
     pub unit: OptionalParameter<Id>,
 }
 
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index e4590d6..8f59e5c 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -33,6 +33,7 @@ pub struct RelDefinesByProperties {
     pub related_objects: IfcList<Id>,
 
     /// Reference to the property set definition for that object or set of objects.
+    #[ifc_types(PropertySet)]
     pub relating_property_definition: Id,
 }
 
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index ca2747f..5e3f55b 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -28,6 +28,7 @@ pub struct RelDefinesByType {
     pub related_objects: IfcList<Id>,
 
     /// Reference to the type (or style) information for that object or set of objects.
+    #[ifc_types(WallType, SlabType, RoofType, DoorType, WindowType, SpaceType, ShadingDeviceType)]
     pub relating_type: Id,
 }
 
diff --git a/ifc_rs/src/units/shared/named_unit.rs b/ifc_rs/src/units/shared/named_unit.rs
index cdb6c26..a5d9af7 100644
--- a/ifc_rs/src/units/shared/named_unit.rs
+++ b/ifc_rs/src/units/shared/named_unit.rs
@@ -10,6 +10,7 @@ use crate::{id::Id, parser::*, prelude::*, units::unit_enum::IfcUnitEnum};
 #[derive(IfcVerify)]
 pub struct NamedUnit {
     /// The dimensional exponents of the SI base units by which the named unit is defined.
+    #[ifc_types(DimensionalExponents)]
     pub dimensions: OptionalParameter<Id>,
 
     /// The type of the unit.
-- 
2.43.0


From b25c986df9a7ae710bc125a4d195791f28cb20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 09/18] fix: spell electric unit and coulomb tokens as the
 schema does

---
 ifc_rs/src/units/name.rs      |  2 +-
 ifc_rs/src/units/unit_enum.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ifc_rs/src/units/name.rs b/ifc_rs/src/units/name.rs
index 570943e..76f7069 100644
--- a/ifc_rs/src/units/name.rs
+++ b/ifc_rs/src/units/name.rs
@@ -24,7 +24,7 @@ pub enum IfcUnitName {
     Candela,
 
     /// Unit for electric charge.
-    #[strum(to_string = ".COULOUMB.")]
+    #[strum(to_string = ".COULOMB.")]
     Couloumb,
 
     /// Unit for volume.
diff --git a/ifc_rs/src/units/unit_enum.rs b/ifc_rs/src/units/unit_enum.rs
index 39ea217..b95904c 100644
--- a/ifc_rs/src/units/unit_enum.rs
+++ b/ifc_rs/src/units/unit_enum.rs
@@ -28,27 +28,27 @@ pub enum IfcUnitEnum {
     DoseEquivalentUnit,
 
     /// Represents units of electric capacitance, such as "Farad"
-    #[strum(to_string = ".ELCTRICCAPACITANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCAPACITANCEUNIT.")]
     ElectricCapacitanceUnit,
 
     /// Represents units of electric charge, such as "Coulomb"
-    #[strum(to_string = ".ELCTRICCHARGEUNIT.")]
+    #[strum(to_string = ".ELECTRICCHARGEUNIT.")]
     ElectricChargeUnit,
 
     /// Represents units of electric conductance, such as "Siemens"
-    #[strum(to_string = ".ELCTRICCONDUCTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCONDUCTANCEUNIT.")]
     ElectricConductanceUnit,
 
     /// Represents units of electric current, such as "Ampere"
-    #[strum(to_string = ".ELCTRICCURRENTUNIT.")]
+    #[strum(to_string = ".ELECTRICCURRENTUNIT.")]
     ElectricCurrentUnit,
 
     /// Represents units of electric resistance, such as "Ohm"
-    #[strum(to_string = ".ELCTRICRESISTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICRESISTANCEUNIT.")]
     ElectricResistanceUnit,
 
     /// Represents units of electric voltage, such as "Volt"
-    #[strum(to_string = ".ELCTRICVOLTAGEUNIT.")]
+    #[strum(to_string = ".ELECTRICVOLTAGEUNIT.")]
     ElectricVoltageUnit,
 
     /// Represents units of energy, such as "Joule"
-- 
2.43.0


From b9f09033476063b695471175d0f653cf49bbe8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 10/18] fix: spell the commissioning engineer token as the
 schema does

---
 ifc_rs/src/objects/actor_role/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ifc_rs/src/objects/actor_role/mod.rs b/ifc_rs/src/objects/actor_role/mod.rs
index 500a923..bb2f890 100644
--- a/ifc_rs/src/objects/actor_role/mod.rs
+++ b/ifc_rs/src/objects/actor_role/mod.rs
@@ -65,7 +65,7 @@ pub enum Role {
     FacilitiesManager,
     #[strum(to_string = ".CIVILENGINEER.")]
     CivilEngineer,
-    #[strum(to_string = ".COMISSIONENGINEER.")]
+    #[strum(to_string = ".COMMISSIONINGENGINEER.")]
     ComissionEngineer,
     #[strum(to_string = ".ENGINEER.")]
     Engineer,
-- 
2.43.0


From 5c0628aa4535118c7e07b87a174a2645ca21be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 11/18] fix: verify the related objects of relations

---
 ifc_rs/src/objects/shared/rel_associates.rs   | 22 +++++++++++++++++++
 ifc_rs/src/relations/rel_declares.rs          | 22 +++++++++++++++++++
 .../relations/rel_defines_by_properties.rs    | 21 ++++++++++++++++++
 ifc_rs/src/relations/rel_defines_by_type.rs   | 14 ++++++++++++
 4 files changed, 79 insertions(+)

diff --git a/ifc_rs/src/objects/shared/rel_associates.rs b/ifc_rs/src/objects/shared/rel_associates.rs
index 295d9e2..7987739 100644
--- a/ifc_rs/src/objects/shared/rel_associates.rs
+++ b/ifc_rs/src/objects/shared/rel_associates.rs
@@ -25,6 +25,28 @@ pub struct RelAssociates {
     /// Set of object or property definitions to which the external references or
     /// information is associated. It includes object and type objects, property set
     /// templates, property templates and property sets and contexts.
+    #[ifc_types(
+        Project,
+        Site,
+        Building,
+        Storey,
+        Space,
+        Wall,
+        Slab,
+        Roof,
+        Door,
+        Window,
+        ShadingDevice,
+        OpeningElement,
+        WallType,
+        SlabType,
+        RoofType,
+        DoorType,
+        WindowType,
+        SpaceType,
+        ShadingDeviceType,
+        PropertySet
+    )]
     pub related_objects: IfcList<Id>,
 }
 
diff --git a/ifc_rs/src/relations/rel_declares.rs b/ifc_rs/src/relations/rel_declares.rs
index 170d5ab..228fd17 100644
--- a/ifc_rs/src/relations/rel_declares.rs
+++ b/ifc_rs/src/relations/rel_declares.rs
@@ -27,6 +27,28 @@ pub struct RelDeclares {
 
     /// Set of object or property definitions that are assigned to a context and
     /// to which the unit and representation context definitions of that context apply.
+    #[ifc_types(
+        Project,
+        Site,
+        Building,
+        Storey,
+        Space,
+        Wall,
+        Slab,
+        Roof,
+        Door,
+        Window,
+        ShadingDevice,
+        OpeningElement,
+        WallType,
+        SlabType,
+        RoofType,
+        DoorType,
+        WindowType,
+        SpaceType,
+        ShadingDeviceType,
+        PropertySet
+    )]
     pub related_definitions: IfcList<Id>,
 }
 
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index 8f59e5c..746e9e6 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -30,6 +30,27 @@ pub struct RelDefinesByProperties {
     root: Root,
 
     /// Reference to the objects (or single object) to which the property definition applies.
+    #[ifc_types(
+        Project,
+        Site,
+        Building,
+        Storey,
+        Space,
+        Wall,
+        Slab,
+        Roof,
+        Door,
+        Window,
+        ShadingDevice,
+        OpeningElement,
+        WallType,
+        SlabType,
+        RoofType,
+        DoorType,
+        WindowType,
+        SpaceType,
+        ShadingDeviceType
+    )]
     pub related_objects: IfcList<Id>,
 
     /// Reference to the property set definition for that object or set of objects.
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index 5e3f55b..ab647f4 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -25,6 +25,20 @@ pub struct RelDefinesByType {
     #[inherited]
     root: Root,
 
+    #[ifc_types(
+        Project,
+        Site,
+        Building,
+        Storey,
+        Space,
+        Wall,
+        Slab,
+        Roof,
+        Door,
+        Window,
+        ShadingDevice,
+        OpeningElement
+    )]
     pub related_objects: IfcList<Id>,
 
     /// Reference to the type (or style) information for that object or set of objects.
-- 
2.43.0


From 6f14cda9043674374abc95af9200eb943f558f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 12/18] fix: accept elements in aggregations

---
 ifc_rs/src/relations/rel_aggregates.rs | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/relations/rel_aggregates.rs b/ifc_rs/src/relations/rel_aggregates.rs
index ec06747..856382d 100644
--- a/ifc_rs/src/relations/rel_aggregates.rs
+++ b/ifc_rs/src/relations/rel_aggregates.rs
@@ -25,14 +25,39 @@ pub struct RelAggregates {
     /// The object definition, either an object type or an object
     /// occurrence, that represents the aggregation. It is the whole
     /// within the whole/part relationship.
-    #[ifc_types(Project, Site, Building, Storey)]
+    #[ifc_types(
+        Project,
+        Site,
+        Building,
+        Storey,
+        Space,
+        Wall,
+        Slab,
+        Roof,
+        Door,
+        Window,
+        ShadingDevice,
+        OpeningElement
+    )]
     pub relating_object: Id,
 
     /// The object definitions, either object occurrences or object
     /// types, that are being aggregated. They are defined as the
     /// parts in the whole/part relationship. No order is implied
     /// between the parts.
-    #[ifc_types(Site, Building, Storey, Space)]
+    #[ifc_types(
+        Site,
+        Building,
+        Storey,
+        Space,
+        Wall,
+        Slab,
+        Roof,
+        Door,
+        Window,
+        ShadingDevice,
+        OpeningElement
+    )]
     pub related_objects: IfcList<Id>,
 }
 
-- 
2.43.0


From bf967765d7df78fcfac9ea7f90c1810e14978e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 13/18] fix: read the applicable occurrence of a type as text

---
 ifc_rs/src/objects/shared/type_object.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/objects/shared/type_object.rs b/ifc_rs/src/objects/shared/type_object.rs
index b17bc40..f5b1541 100644
--- a/ifc_rs/src/objects/shared/type_object.rs
+++ b/ifc_rs/src/objects/shared/type_object.rs
@@ -7,7 +7,10 @@ use ifc_rs_verify_derive::IfcVerify;
 
 use crate::{
     id::Id,
-    parser::{comma::Comma, list::IfcList, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, list::IfcList, optional::OptionalParameter, string::StringPrimitive,
+        IFCParse, IFCParser,
+    },
     prelude::*,
 };
 
@@ -37,7 +40,7 @@ pub struct TypeObject {
     ///   * If one type object is applicable to many occurrence objects,
     ///     then those occurrence object names should be separate by
     ///     comma "," forming a comma separated string.
-    pub applicable_occurence: OptionalParameter<Id>,
+    pub applicable_occurence: OptionalParameter<StringPrimitive>,
 
     /// Set list of unique property sets, that are associated with the
     /// object type and are common to all object occurrences referring
-- 
2.43.0


From 9a171716f642512662fd8c0b98ce3b730ed4e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 14/18] fix: add the missing values of the unit, prefix and
 roof enumerations

---
 ifc_rs/src/objects/rooftype/type_enum.rs | 4 ++++
 ifc_rs/src/units/derived_unit_enum.rs    | 3 +++
 ifc_rs/src/units/prefix.rs               | 4 ++++
 ifc_rs/src/units/unit_enum.rs            | 4 ++++
 4 files changed, 15 insertions(+)

diff --git a/ifc_rs/src/objects/rooftype/type_enum.rs b/ifc_rs/src/objects/rooftype/type_enum.rs
index 9e3ab63..02db842 100644
--- a/ifc_rs/src/objects/rooftype/type_enum.rs
+++ b/ifc_rs/src/objects/rooftype/type_enum.rs
@@ -66,6 +66,10 @@ pub enum RoofTypeEnum {
     #[strum(to_string = ".DOME_ROOF.")]
     DomeRoof,
 
+    /// Free form roof.
+    #[strum(to_string = ".FREEFORM.")]
+    FreeForm,
+
     /// User-defined slab element.
     #[strum(to_string = ".USERDEFINED.")]
     UserDefined,
diff --git a/ifc_rs/src/units/derived_unit_enum.rs b/ifc_rs/src/units/derived_unit_enum.rs
index 4b8d2a7..a72c45d 100644
--- a/ifc_rs/src/units/derived_unit_enum.rs
+++ b/ifc_rs/src/units/derived_unit_enum.rs
@@ -26,6 +26,9 @@ pub enum DerivedUnitEnum {
     #[strum(to_string = ".HEATFLUXDENSITYUNIT.")]
     HEATFLUXDENSITYUNIT,
 
+    #[strum(to_string = ".HEATINGVALUEUNIT.")]
+    HEATINGVALUEUNIT,
+
     #[strum(to_string = ".INTEGERCOUNTRATEUNIT.")]
     INTEGERCOUNTRATEUNIT,
 
diff --git a/ifc_rs/src/units/prefix.rs b/ifc_rs/src/units/prefix.rs
index 797bc5d..8d9a634 100644
--- a/ifc_rs/src/units/prefix.rs
+++ b/ifc_rs/src/units/prefix.rs
@@ -33,6 +33,10 @@ pub enum IfcPrefix {
     #[strum(to_string = ".KILO.")]
     Kilo,
 
+    /// 10^2
+    #[strum(to_string = ".HECTO.")]
+    Hecto,
+
     /// 10
     #[strum(to_string = ".DECA.")]
     Deca,
diff --git a/ifc_rs/src/units/unit_enum.rs b/ifc_rs/src/units/unit_enum.rs
index b95904c..a2fac4f 100644
--- a/ifc_rs/src/units/unit_enum.rs
+++ b/ifc_rs/src/units/unit_enum.rs
@@ -59,6 +59,10 @@ pub enum IfcUnitEnum {
     #[strum(to_string = ".FORCEUNIT.")]
     ForceUnit,
 
+    /// Represents units of frequency, such as "Hertz"
+    #[strum(to_string = ".FREQUENCYUNIT.")]
+    FrequencyUnit,
+
     /// Represents units of illuminance, such as "Lux"
     #[strum(to_string = ".ILLUMINANCEUNIT.")]
     IlluminanceUnit,
-- 
2.43.0


From cadb042f9b0781c929a77ba3b3086b366c40103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 15/18] fix: the town of a postal address is a single text

---
 ifc_rs/src/objects/address/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ifc_rs/src/objects/address/mod.rs b/ifc_rs/src/objects/address/mod.rs
index 5b66dbe..2505252 100644
--- a/ifc_rs/src/objects/address/mod.rs
+++ b/ifc_rs/src/objects/address/mod.rs
@@ -66,7 +66,7 @@ pub struct PostalAddress {
     /// An address that is implied by an identifiable mail drop.
     pub postal_box: OptionalParameter<StringPrimitive>,
     /// The name of a town
-    pub town: OptionalParameter<IfcList<StringPrimitive>>,
+    pub town: OptionalParameter<StringPrimitive>,
     /// The name of a region
     pub region: OptionalParameter<StringPrimitive>,
     /// The code that is used by the countr'ys postal service
-- 
2.43.0


From 7bf3a3987987ff5f2d56d0d735fdfa65878185f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 16/18] fix: ventilation of a layer and value of a property are
 optional

---
 ifc_rs/src/materials/material_layer.rs | 6 +++---
 ifc_rs/src/properties/single_value.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ifc_rs/src/materials/material_layer.rs b/ifc_rs/src/materials/material_layer.rs
index ec19564..9dd6764 100644
--- a/ifc_rs/src/materials/material_layer.rs
+++ b/ifc_rs/src/materials/material_layer.rs
@@ -39,7 +39,7 @@ pub struct MaterialLayer {
     ///     provide air exchange (or when this information about air exchange of
     ///     the air gap is not available).
     ///   * set to FALSE if the material layer is a solid material layer (the default).
-    pub is_ventilated: BoolPrimitive,
+    pub is_ventilated: OptionalParameter<BoolPrimitive>,
 
     /// The name by which the material layer is known.
     pub name: OptionalParameter<StringPrimitive>,
@@ -74,7 +74,7 @@ impl MaterialLayer {
         Self {
             material: OptionalParameter::omitted(),
             layer_thickness: RealPrimitive(layer_thickness),
-            is_ventilated: is_ventilated.into(),
+            is_ventilated: BoolPrimitive::from(is_ventilated).into(),
             name: OptionalParameter::omitted(),
             description: OptionalParameter::omitted(),
             category: OptionalParameter::omitted(),
@@ -118,7 +118,7 @@ impl IFCParse for MaterialLayer {
                 _: Comma::parse(),
                 layer_thickness: RealPrimitive::parse(),
                 _: Comma::parse(),
-                is_ventilated: BoolPrimitive::parse(),
+                is_ventilated: OptionalParameter::parse(),
                 _: Comma::parse(),
                 name: OptionalParameter::parse(),
                 _: Comma::parse(),
diff --git a/ifc_rs/src/properties/single_value.rs b/ifc_rs/src/properties/single_value.rs
index 49ccc5f..cbfa312 100644
--- a/ifc_rs/src/properties/single_value.rs
+++ b/ifc_rs/src/properties/single_value.rs
@@ -28,7 +28,7 @@ pub struct PropertySingleValue {
     base: PropertyBase,
 
     /// Value and measure type of this property.
-    pub value: IfcValue,
+    pub value: OptionalParameter<IfcValue>,
     /// Unit for the nominal value, if not given, the default value for the measure type (given by
     /// the TYPE of nominal value) is used as defined by the global unit assignment at IfcProject.
     #[ifc_types(SiUnit, DerivedUnit, MonetaryUnit, ConversionBasedUnit)]
@@ -39,7 +39,7 @@ impl PropertySingleValue {
     pub fn new(name: impl Into<StringPrimitive>, value: IfcValue, unit: Option<Id>) -> Self {
         Self {
             base: PropertyBase::new(name),
-            value,
+            value: value.into(),
             unit: unit.map_or_else(OptionalParameter::omitted, |val| val.into()),
         }
     }
@@ -62,7 +62,7 @@ impl IFCParse for PropertySingleValue {
 
                 base: PropertyBase::parse(),
                 _: Comma::parse(),
-                value: IfcValue::parse(),
+                value: OptionalParameter::parse(),
                 _: Comma::parse(),
                 unit: OptionalParameter::parse(),
 
-- 
2.43.0


From 503797530c9a7e9d59f4c1450ed9390da2b0f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 17/18] fix: true_north takes a direction, not an axis
 placement

---
 ifc_rs/src/geometry/direction/mod.rs              | 2 ++
 ifc_rs/src/geometry/representation_context/mod.rs | 4 ++--
 ifc_rs/src/traits/sub_types.rs                    | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/geometry/direction/mod.rs b/ifc_rs/src/geometry/direction/mod.rs
index 1aa39ed..f58b6b8 100644
--- a/ifc_rs/src/geometry/direction/mod.rs
+++ b/ifc_rs/src/geometry/direction/mod.rs
@@ -26,6 +26,7 @@ impl From<DVec2> for Direction2D {
 }
 
 impl IfcType for Direction2D {}
+impl Direction for Direction2D {}
 
 /// The IfcDirection provides a direction in two or three dimensional space depending on the number
 /// of DirectionRatio's provided. The IfcDirection does not imply a vector length, and the
@@ -45,3 +46,4 @@ impl From<DVec3> for Direction3D {
 }
 
 impl IfcType for Direction3D {}
+impl Direction for Direction3D {}
diff --git a/ifc_rs/src/geometry/representation_context/mod.rs b/ifc_rs/src/geometry/representation_context/mod.rs
index a6b0b01..5470660 100644
--- a/ifc_rs/src/geometry/representation_context/mod.rs
+++ b/ifc_rs/src/geometry/representation_context/mod.rs
@@ -70,9 +70,9 @@ impl GeometricRepresentationContext {
         self
     }
 
-    pub fn true_north<A: AxisPlacement>(
+    pub fn true_north<D: Direction>(
         mut self,
-        direction: impl Into<IdOr<A>>,
+        direction: impl Into<IdOr<D>>,
         ifc: &mut IFC,
     ) -> Self {
         self.true_north = direction.into().or_insert(ifc).id().into();
diff --git a/ifc_rs/src/traits/sub_types.rs b/ifc_rs/src/traits/sub_types.rs
index cbdb5ef..555f214 100644
--- a/ifc_rs/src/traits/sub_types.rs
+++ b/ifc_rs/src/traits/sub_types.rs
@@ -4,6 +4,8 @@ pub trait Transform3D: IfcType {}
 
 pub trait AxisPlacement: IfcType {}
 
+pub trait Direction: IfcType {}
+
 pub trait Curve: IfcType {}
 
 pub trait CartesianPoint: IfcType {}
-- 
2.43.0


From 491a38929bdae377d66a57cae1656b7e70a0a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 18/18] fix: moving a product keeps the identifiers of its
 representations

IfcStoreyBuilder::transform wrote every mapped representation with the
identifier Body, so that the axis of a moved wall became a second body.
It now keeps the identifier, as the transform of the wall and slab
builders does.
---
 ifc_rs/src/ifc_builder/transforms.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/transforms.rs b/ifc_rs/src/ifc_builder/transforms.rs
index d79639b..82ebb9d 100644
--- a/ifc_rs/src/ifc_builder/transforms.rs
+++ b/ifc_rs/src/ifc_builder/transforms.rs
@@ -173,9 +173,19 @@ impl<'a> IfcStoreyBuilder<'a> {
                         shape_repr,
                         &mut self.project.ifc,
                     );
+                    let shape_repr_identifier = self
+                        .project
+                        .ifc
+                        .data
+                        .get(shape_repr)
+                        .representation_identifier
+                        .custom()
+                        .copied()
+                        .unwrap_or(RepresentationIdentifier::Body);
+
                     let r = ShapeRepresentation::new(
                         self.sub_context,
-                        RepresentationIdentifier::Body,
+                        shape_repr_identifier,
                         RepresentationType::MappedRepresentation,
                         &mut self.project.ifc,
                     )
-- 
2.43.0

