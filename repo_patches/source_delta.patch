From e00028047df980643ecafe58c5538efd36fd7326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:55 +0000
Subject: [PATCH 01/20] fix: stop reading the property path stack through an
 aliased raw pointer

---
 src/properties/map_property.rs    | 18 ++++++++---------
 src/properties/mod.rs             | 21 ++++++++++++++++++--
 src/properties/struct_property.rs |  9 ++++-----
 src/scoped_stack_entry.rs         | 33 ++++++++++++-------------------
 4 files changed, 44 insertions(+), 37 deletions(-)

diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index 9ee6bb6..f6974a6 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -16,7 +16,7 @@ use crate::{
         name_property::NameProperty,
         str_property::StrProperty,
     },
-    scoped_stack_entry::ScopedStackEntry,
+    scoped_stack_entry::with_stack_entry,
     types::map::HashableIndexMap,
 };
 
@@ -467,15 +467,13 @@ impl MapProperty {
 
         let mut map = HashableIndexMap::with_capacity(element_count as usize);
         for _ in 0..element_count {
-            let properties_stack = &mut options.properties_stack;
-            let key_stack_entry = ScopedStackEntry::new(properties_stack, "Key".to_string());
-            let key = Property::new(cursor, &key_type, false, options, None)?;
-            drop(key_stack_entry);
-
-            let properties_stack = &mut options.properties_stack;
-            let value_stack_entry = ScopedStackEntry::new(properties_stack, "Value".to_string());
-            let value = Property::new(cursor, &value_type, false, options, None)?;
-            drop(value_stack_entry);
+            let key = with_stack_entry(options, "Key".to_string(), |options| {
+                Property::new(cursor, &key_type, false, options, None)
+            })?;
+
+            let value = with_stack_entry(options, "Value".to_string(), |options| {
+                Property::new(cursor, &value_type, false, options, None)
+            })?;
 
             map.insert(key, value);
         }
diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 963f515..87bc16a 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -10,7 +10,7 @@ use enum_dispatch::enum_dispatch;
 use crate::{
     custom_version::{CustomVersionTrait, FCustomVersion},
     error::{DeserializeError, Error},
-    scoped_stack_entry::ScopedStackEntry,
+    scoped_stack_entry::with_stack_entry,
     types::{Guid, map::HashableIndexMap},
 };
 
@@ -556,7 +556,24 @@ impl Property {
         options: &mut PropertyOptions,
         suggested_length: Option<u32>,
     ) -> Result<Self, Error> {
-        let _stack_entry = ScopedStackEntry::new(options.properties_stack, value_type.to_string());
+        with_stack_entry(options, value_type.to_string(), |options| {
+            Self::read(
+                cursor,
+                value_type,
+                include_header,
+                options,
+                suggested_length,
+            )
+        })
+    }
+
+    fn read<R: Read + Seek>(
+        cursor: &mut R,
+        value_type: &str,
+        include_header: bool,
+        options: &mut PropertyOptions,
+        suggested_length: Option<u32>,
+    ) -> Result<Self, Error> {
         match value_type {
             "Int8Property" => Ok(Int8Property::read(cursor, include_header)?.into()),
             "ByteProperty" => {
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 8a59413..0de21f7 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -12,7 +12,7 @@ use crate::{
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
     properties::{name_property::NameProperty, struct_types::LinearColor},
-    scoped_stack_entry::ScopedStackEntry,
+    scoped_stack_entry::with_stack_entry,
     types::{Guid, map::HashableIndexMap},
 };
 
@@ -381,10 +381,9 @@ impl StructPropertyValue {
                 break;
             }
             let property_type = cursor.read_string()?;
-            let _property_stack_entry =
-                ScopedStackEntry::new(options.properties_stack, property_name.clone());
-
-            let property = Property::new(cursor, &property_type, true, options, None)?;
+            let property = with_stack_entry(options, property_name.clone(), |options| {
+                Property::new(cursor, &property_type, true, options, None)
+            })?;
             insert_property(&mut properties, property_name, property);
         }
         Ok(StructPropertyValue::CustomStruct(properties))
diff --git a/src/scoped_stack_entry.rs b/src/scoped_stack_entry.rs
index 414317d..e370cfb 100644
--- a/src/scoped_stack_entry.rs
+++ b/src/scoped_stack_entry.rs
@@ -1,22 +1,15 @@
-pub(crate) struct ScopedStackEntry<T> {
-    stack: *mut Vec<T>,
-}
-
-/// This struct adds an entry to a Vec on creation and removes an entry when going out of scope
-impl<T> ScopedStackEntry<T> {
-    /// Create new instance of ScopedStackEntry
-    pub(crate) fn new(stack: &mut Vec<T>, value: T) -> Self {
-        stack.push(value);
-        Self {
-            stack: stack as *mut Vec<T>,
-        }
-    }
-}
+use crate::{error::Error, properties::PropertyOptions};
 
-impl<T> Drop for ScopedStackEntry<T> {
-    fn drop(&mut self) {
-        if let Some(stack) = unsafe { self.stack.as_mut() } {
-            stack.pop();
-        }
-    }
+/// Adds an entry to the properties stack while `f` is running and removes it afterwards,
+/// whether `f` succeeded or not
+#[inline]
+pub(crate) fn with_stack_entry<T>(
+    options: &mut PropertyOptions,
+    entry: String,
+    f: impl FnOnce(&mut PropertyOptions) -> Result<T, Error>,
+) -> Result<T, Error> {
+    options.properties_stack.push(entry);
+    let result = f(options);
+    options.properties_stack.pop();
+    result
 }
-- 
2.43.0


From eb0336011b4c7f027b48d412aaba02226bdb21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:49 +0000
Subject: [PATCH 02/20] fix: report the number of bytes written for ASCII
 strings

---
 src/cursor_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 8fc0c44..74f6a8e 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -152,7 +152,7 @@ impl<W: Write> WriteExt for W {
             self.write_i32::<LittleEndian>(len as i32)?;
             let _ = self.write(v.as_bytes())?;
             let _ = self.write(&[0u8; 1])?;
-            Ok(len * 2 + 4)
+            Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
             let words: Vec<u16> = v.encode_utf16().collect();
-- 
2.43.0


From 76c6f82840679264e6585dabf19080374dcfe9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:51 +0000
Subject: [PATCH 03/20] fix: write strings completely when the writer accepts
 only part of a buffer

---
 src/cursor_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index 74f6a8e..f6fbe86 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -150,8 +150,8 @@ impl<W: Write> WriteExt for W {
             // ASCII strings do not require encoding
             let len = v.len() + 1;
             self.write_i32::<LittleEndian>(len as i32)?;
-            let _ = self.write(v.as_bytes())?;
-            let _ = self.write(&[0u8; 1])?;
+            self.write_all(v.as_bytes())?;
+            self.write_all(&[0u8; 1])?;
             Ok(len + 4)
         } else {
             // Perform UTF-16 encoding when non-ASCII characters are detected
-- 
2.43.0


From 767421578b68619623f653900ca44c3743127323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:52 +0000
Subject: [PATCH 04/20] fix: report the written size of NameProperty and
 GameplayTagContainer correctly

---
 src/properties/mod.rs             | 2 +-
 src/properties/struct_property.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 87bc16a..36a7b60 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -330,7 +330,7 @@ macro_rules! impl_write {
             len += self.write_body(buf, options)?;
             let buf = buf.get_ref();
 
-            writer.write_string(stringify!($property))?;
+            len += writer.write_string(stringify!($property))?;
             writer.write_u32::<LittleEndian>(buf.len() as u32)?;
             writer.write_u32::<LittleEndian>(self.array_index)?;
             $(
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index 0de21f7..fad42c6 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -347,8 +347,8 @@ impl PropertyTrait for StructPropertyValue {
                 Ok(16)
             }
             StructPropertyValue::GameplayTagContainer(tags) => {
-                let mut len = tags.len();
-                cursor.write_i32::<LittleEndian>(len as i32)?;
+                let mut len = 4;
+                cursor.write_i32::<LittleEndian>(tags.len() as i32)?;
                 for gameplaytag in tags {
                     len += cursor.write_string(gameplaytag)?;
                 }
-- 
2.43.0


From 2c0512f02bda88b12195c3c0d001ddf513931959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:53 +0000
Subject: [PATCH 05/20] fix: implement BoolProperty::write_body instead of
 panicking

---
 src/properties/int_property.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index ab4f7e4..521bd1c 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -322,8 +322,13 @@ impl PropertyTrait for BoolProperty {
         Ok(len)
     }
 
-    fn write_body<W: Write>(&self, _: &mut W, _: &mut PropertyOptions) -> Result<usize, Error> {
-        unimplemented!()
+    fn write_body<W: Write>(
+        &self,
+        cursor: &mut W,
+        _: &mut PropertyOptions,
+    ) -> Result<usize, Error> {
+        cursor.write_bool(self.value)?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From 4fbc430397d742508b0b011f543d0753d4a6860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:55 +0000
Subject: [PATCH 06/20] fix: return errors instead of panicking on unexpected
 property header values

---
 src/properties/array_property.rs   |  6 +++++-
 src/properties/int_property.rs     | 32 +++++++++++++++++-------------
 src/properties/unknown_property.rs | 22 +++++++++++---------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 9977e3e..7b2a51f 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -311,7 +311,11 @@ impl ArrayProperty {
                 let field_name = cursor.read_string()?;
 
                 let property_type = cursor.read_string()?;
-                assert_eq!(property_type, "StructProperty");
+                validate!(
+                    cursor,
+                    property_type == "StructProperty",
+                    "Unexpected array element type {property_type}",
+                );
                 let properties_size = cursor.read_u64::<LittleEndian>()?;
 
                 let struct_name = cursor.read_string()?;
diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 521bd1c..449a27a 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -28,6 +28,16 @@ macro_rules! check_size {
     };
 }
 
+macro_rules! check_terminator {
+    ($cursor:ident) => {
+        let terminator = $cursor.read_u8()?;
+        if terminator != 0 {
+            let position = $cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
+    };
+}
+
 macro_rules! impl_int_property {
     ($name:ident, $ty:ident, $read_method:ident, $write_method:ident, $size:literal) => {
         #[doc = concat!("A property that stores a `", stringify!($ty), "`.")]
@@ -53,8 +63,7 @@ macro_rules! impl_int_property {
             ) -> Result<Self, Error> {
                 if include_header {
                     check_size!(cursor, $size);
-                    let separator = cursor.read_u8()?;
-                    assert_eq!(separator, 0);
+                    check_terminator!(cursor);
                 }
                 Ok(Self::new(cursor.$read_method::<LittleEndian>()?))
             }
@@ -107,8 +116,7 @@ impl Int8Property {
     ) -> Result<Self, Error> {
         if include_header {
             check_size!(cursor, 1);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
         Ok(Int8Property {
             value: cursor.read_i8()?,
@@ -193,17 +201,14 @@ impl ByteProperty {
         if include_header {
             let length = cursor.read_u32::<LittleEndian>()?;
             let array_index = cursor.read_u32::<LittleEndian>()?;
-            assert_eq!(
-                array_index,
-                0,
-                "Expected array_index value zero @ {:#x}",
-                cursor.stream_position()? - 4
-            );
+            if array_index != 0 {
+                let position = cursor.stream_position()? - 4;
+                Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+            }
             suggested_length = Some(length);
 
             name = Some(cursor.read_string()?);
-            let separator = cursor.read_u8()?;
-            assert_eq!(separator, 0);
+            check_terminator!(cursor);
         }
 
         // -1 to account for separator
@@ -286,8 +291,7 @@ impl BoolProperty {
         }
         let value = cursor.read_bool()?;
         if include_header {
-            let indicator = cursor.read_u8()?;
-            assert_eq!(indicator, 0);
+            check_terminator!(cursor);
         }
         Ok(BoolProperty { value })
     }
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index e7126b7..15640cf 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -2,7 +2,10 @@ use std::io::{Cursor, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
-use crate::{cursor_ext::WriteExt, error::Error};
+use crate::{
+    cursor_ext::WriteExt,
+    error::{DeserializeError, Error},
+};
 
 use super::{PropertyOptions, PropertyTrait};
 
@@ -43,14 +46,15 @@ impl UnknownProperty {
     ) -> Result<Self, Error> {
         let length = cursor.read_u32::<LittleEndian>()?;
         let array_index = cursor.read_u32::<LittleEndian>()?;
-        assert_eq!(
-            array_index,
-            0,
-            "Expected array_index value zero @ {:#x}",
-            cursor.stream_position()? - 4
-        );
-        let separator = cursor.read_u8()?;
-        assert_eq!(separator, 0);
+        if array_index != 0 {
+            let position = cursor.stream_position()? - 4;
+            Err(DeserializeError::InvalidArrayIndex(array_index, position))?
+        }
+        let terminator = cursor.read_u8()?;
+        if terminator != 0 {
+            let position = cursor.stream_position()? - 1;
+            Err(DeserializeError::InvalidTerminator(terminator, position))?
+        }
 
         UnknownProperty::read_with_length(cursor, property_name, length)
     }
-- 
2.43.0


From c7b5b4db60b37eb6b47f7b9ef8dfecab9218aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:56 +0000
Subject: [PATCH 07/20] fix: check the declared length of ByteProperty values

---
 src/properties/int_property.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/properties/int_property.rs b/src/properties/int_property.rs
index 449a27a..9a52bbe 100644
--- a/src/properties/int_property.rs
+++ b/src/properties/int_property.rs
@@ -211,14 +211,27 @@ impl ByteProperty {
             check_terminator!(cursor);
         }
 
+        let start = cursor.stream_position()?;
+
         // -1 to account for separator
-        let length = suggested_length.map(|e| e - 1).unwrap_or(1);
+        let length = suggested_length.map(|e| e.saturating_sub(1)).unwrap_or(1);
 
         let value = match length {
             1 | 0 => BytePropertyValue::Byte(cursor.read_u8()?),
             _ => BytePropertyValue::Namespaced(cursor.read_string()?),
         };
 
+        if include_header && let Some(length) = suggested_length {
+            let end = cursor.stream_position()?;
+            if end - start != length as u64 {
+                Err(DeserializeError::InvalidValueSize(
+                    length as u64,
+                    end - start,
+                    start,
+                ))?
+            }
+        }
+
         Ok(ByteProperty { name, value })
     }
 }
-- 
2.43.0


From 6658c0c48c2b8a5a460f1acf5c7f7d97e7cea226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:58 +0000
Subject: [PATCH 08/20] fix: reject SetProperty lengths that do not cover the
 set header

---
 src/properties/set_property.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 1bc82db..7a17f9b 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -64,9 +64,14 @@ impl SetProperty {
         let element_count = cursor.read_u32::<LittleEndian>()?;
         let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
 
-        if element_count > 0
-            && let Some(total_bytes_per_property) = (length - 8).checked_div(element_count)
-        {
+        if element_count > 0 {
+            let Some(total_bytes) = length.checked_sub(8) else {
+                Err(DeserializeError::invalid_property(
+                    format!("SetProperty length {length} is too small"),
+                    cursor,
+                ))?
+            };
+            let total_bytes_per_property = total_bytes / element_count;
             for _ in 0..element_count {
                 properties.push(Property::new(
                     cursor,
-- 
2.43.0


From 7d93b51a726e901db27d9166fbe4a46d87131619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:55:31 +0000
Subject: [PATCH 09/20] fix: return errors for unsupported text history and
 format argument types

---
 src/properties/text_property.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index e38b961..598e7e7 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::Error,
+    error::{DeserializeError, Error},
 };
 
 use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
@@ -493,7 +493,13 @@ impl FTextHistory {
 
                 FTextHistory::StringTableEntry { table_id, key }
             }
-            _ => unimplemented!("unimplemented history type: {:?}", history_type),
+            TextHistoryType::TextGenerator | TextHistoryType::RawText => {
+                Err(DeserializeError::invalid_enum_value(
+                    std::any::type_name::<TextHistoryType>(),
+                    history_type.into(),
+                    cursor,
+                ))?
+            }
         })
     }
 
@@ -779,7 +785,11 @@ impl FormatArgumentValue {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
             FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
-            FormatArgumentType::Gender => unimplemented!(),
+            FormatArgumentType::Gender => Err(DeserializeError::invalid_enum_value(
+                std::any::type_name::<FormatArgumentType>(),
+                format_argument_type.into(),
+                cursor,
+            ))?,
         })
     }
 
-- 
2.43.0


From caf4411a7f868564cff806d0dd46f25596f402d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:55:33 +0000
Subject: [PATCH 10/20] fix: do not allocate memory based on element counts
 read from the input

---
 src/lib.rs                            | 2 +-
 src/properties/array_property.rs      | 2 +-
 src/properties/delegate_property.rs   | 2 +-
 src/properties/field_path_property.rs | 2 +-
 src/properties/map_property.rs        | 2 +-
 src/properties/set_property.rs        | 2 +-
 src/properties/struct_property.rs     | 2 +-
 src/properties/text_property.rs       | 6 +++---
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c72922a..3d94be0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -221,7 +221,7 @@ impl GvasHeader {
         }
 
         let custom_versions_len = cursor.read_u32::<LittleEndian>()?;
-        let mut custom_versions = HashableIndexMap::with_capacity(custom_versions_len as usize);
+        let mut custom_versions = HashableIndexMap::new();
         for _ in 0..custom_versions_len {
             let FCustomVersion { key, version } = FCustomVersion::read(cursor)?;
             custom_versions.insert(key, version);
diff --git a/src/properties/array_property.rs b/src/properties/array_property.rs
index 7b2a51f..8ce2c65 100644
--- a/src/properties/array_property.rs
+++ b/src/properties/array_property.rs
@@ -302,7 +302,7 @@ impl ArrayProperty {
         property_type: String,
     ) -> Result<Self, Error> {
         let property_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(property_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         let mut array_struct_info = None;
 
diff --git a/src/properties/delegate_property.rs b/src/properties/delegate_property.rs
index 8f8e0df..5ff49bb 100644
--- a/src/properties/delegate_property.rs
+++ b/src/properties/delegate_property.rs
@@ -105,7 +105,7 @@ impl MulticastScriptDelegate {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let delegates_len = cursor.read_u32::<LittleEndian>()?;
-        let mut delegates = Vec::with_capacity(delegates_len as usize);
+        let mut delegates = Vec::new();
         for _ in 0..delegates_len {
             delegates.push(Delegate::read(cursor)?);
         }
diff --git a/src/properties/field_path_property.rs b/src/properties/field_path_property.rs
index 0579ad1..120bcd5 100644
--- a/src/properties/field_path_property.rs
+++ b/src/properties/field_path_property.rs
@@ -32,7 +32,7 @@ impl FieldPath {
     #[inline]
     pub(crate) fn read<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let path_len = cursor.read_u32::<LittleEndian>()?;
-        let mut path = Vec::with_capacity(path_len as usize);
+        let mut path = Vec::new();
         for _ in 0..path_len {
             path.push(cursor.read_string()?);
         }
diff --git a/src/properties/map_property.rs b/src/properties/map_property.rs
index f6974a6..1e0ce99 100644
--- a/src/properties/map_property.rs
+++ b/src/properties/map_property.rs
@@ -465,7 +465,7 @@ impl MapProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
         let element_count = cursor.read_u32::<LittleEndian>()?;
 
-        let mut map = HashableIndexMap::with_capacity(element_count as usize);
+        let mut map = HashableIndexMap::new();
         for _ in 0..element_count {
             let key = with_stack_entry(options, "Key".to_string(), |options| {
                 Property::new(cursor, &key_type, false, options, None)
diff --git a/src/properties/set_property.rs b/src/properties/set_property.rs
index 7a17f9b..6d1a743 100644
--- a/src/properties/set_property.rs
+++ b/src/properties/set_property.rs
@@ -62,7 +62,7 @@ impl SetProperty {
         let allocation_flags = cursor.read_u32::<LittleEndian>()?;
 
         let element_count = cursor.read_u32::<LittleEndian>()?;
-        let mut properties: Vec<Property> = Vec::with_capacity(element_count as usize);
+        let mut properties: Vec<Property> = Vec::new();
 
         if element_count > 0 {
             let Some(total_bytes) = length.checked_sub(8) else {
diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index fad42c6..f101b9c 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -391,7 +391,7 @@ impl StructPropertyValue {
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let len = cursor.read_i32::<LittleEndian>()?;
-        let mut tags: Vec<String> = Vec::with_capacity(len as usize);
+        let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
         }
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 598e7e7..b3060cc 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -332,7 +332,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let argument_count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(argument_count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
@@ -349,7 +349,7 @@ impl FTextHistory {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = Vec::with_capacity(count as usize);
+                let mut arguments = Vec::new();
 
                 for _ in 0..count {
                     arguments.push(FormatArgumentValue::read(cursor, options)?);
@@ -363,7 +363,7 @@ impl FTextHistory {
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
                 let count = cursor.read_i32::<LittleEndian>()?;
-                let mut arguments = HashableIndexMap::with_capacity(count as usize);
+                let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-- 
2.43.0


From c22b599554720561aee90bc32ae8969a0e6c71a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:55:34 +0000
Subject: [PATCH 11/20] fix: reject negative text argument and gameplay tag
 counts

---
 src/properties/struct_property.rs |  6 ++++++
 src/properties/text_property.rs   | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index f101b9c..c175764 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -391,6 +391,12 @@ impl StructPropertyValue {
 
     fn read_gameplaytagcontainer<R: Read + Seek>(cursor: &mut R) -> Result<Self, Error> {
         let len = cursor.read_i32::<LittleEndian>()?;
+        if len < 0 {
+            Err(DeserializeError::invalid_property(
+                format!("Invalid gameplay tag count {len}"),
+                cursor,
+            ))?
+        }
         let mut tags: Vec<String> = Vec::new();
         for _ in 0..len {
             tags.push(cursor.read_string()?);
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index b3060cc..bb9a265 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -293,6 +293,17 @@ pub enum FTextHistory {
     },
 }
 
+fn read_argument_count<R: Read + Seek>(cursor: &mut R) -> Result<i32, Error> {
+    let count = cursor.read_i32::<LittleEndian>()?;
+    if count < 0 {
+        Err(DeserializeError::invalid_property(
+            format!("Invalid argument count {count}"),
+            cursor,
+        ))?
+    }
+    Ok(count)
+}
+
 impl FTextHistory {
     /// Read [`FTextHistory`] from a cursor
     #[inline]
@@ -331,7 +342,7 @@ impl FTextHistory {
             TextHistoryType::NamedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let argument_count = cursor.read_i32::<LittleEndian>()?;
+                let argument_count = read_argument_count(cursor)?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
@@ -348,7 +359,7 @@ impl FTextHistory {
             TextHistoryType::OrderedFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
 
-                let count = cursor.read_i32::<LittleEndian>()?;
+                let count = read_argument_count(cursor)?;
                 let mut arguments = Vec::new();
 
                 for _ in 0..count {
@@ -362,7 +373,7 @@ impl FTextHistory {
             }
             TextHistoryType::ArgumentFormat => {
                 let source_format = Box::new(FText::read(cursor, options)?);
-                let count = cursor.read_i32::<LittleEndian>()?;
+                let count = read_argument_count(cursor)?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
-- 
2.43.0


From 9d079ef527165ceb0d0272fe6ab8bcc57f7e15e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:55:46 +0000
Subject: [PATCH 12/20] fix: do not allocate memory based on lengths that
 exceed the input

---
 src/cursor_ext.rs                  | 19 ++++++++++++++++++-
 src/lib.rs                         | 10 +++-------
 src/properties/unknown_property.rs |  5 ++---
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/cursor_ext.rs b/src/cursor_ext.rs
index f6fbe86..69a854b 100644
--- a/src/cursor_ext.rs
+++ b/src/cursor_ext.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, Write};
+use std::io::{self, Read, Seek, Write};
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
@@ -43,6 +43,23 @@ pub trait WriteExt {
         T: Into<i8> + std::fmt::Debug;
 }
 
+pub(crate) trait ReadVecExt {
+    /// Reads exactly `len` bytes, allocating only as much memory as there is data.
+    fn read_vec(&mut self, len: u32) -> Result<Vec<u8>, Error>;
+}
+
+impl<R: Read> ReadVecExt for R {
+    #[inline]
+    fn read_vec(&mut self, len: u32) -> Result<Vec<u8>, Error> {
+        let mut data = Vec::new();
+        self.take(len as u64).read_to_end(&mut data)?;
+        if data.len() != len as usize {
+            Err(io::Error::from(io::ErrorKind::UnexpectedEof))?
+        }
+        Ok(data)
+    }
+}
+
 impl<R: Read + Seek> ReadExt for R {
     #[inline]
     fn read_string(&mut self) -> Result<String, Error> {
diff --git a/src/lib.rs b/src/lib.rs
index 3d94be0..db1e2d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ use flate2::read::ZlibDecoder;
 use flate2::write::ZlibEncoder;
 
 use crate::{
-    cursor_ext::{ReadExt, WriteExt},
+    cursor_ext::{ReadExt, ReadVecExt, WriteExt},
     custom_version::FCustomVersion,
     engine_version::FEngineVersion,
     error::{DeserializeError, Error},
@@ -432,16 +432,12 @@ impl GvasFile {
 
                 match compression_type {
                     PalworldCompressionType::None => {
-                        let mut data = vec![0u8; decompresed_length as usize];
-
-                        cursor.read_exact(&mut data)?;
+                        let data = cursor.read_vec(decompresed_length)?;
                         Cursor::new(data)
                     }
                     PalworldCompressionType::Zlib => {
-                        let mut zlib_data = vec![0u8; decompresed_length as usize];
-
                         let mut decoder = ZlibDecoder::new(cursor);
-                        decoder.read_exact(&mut zlib_data)?;
+                        let zlib_data = decoder.read_vec(decompresed_length)?;
 
                         Cursor::new(zlib_data)
                     }
diff --git a/src/properties/unknown_property.rs b/src/properties/unknown_property.rs
index 15640cf..eab61fa 100644
--- a/src/properties/unknown_property.rs
+++ b/src/properties/unknown_property.rs
@@ -3,7 +3,7 @@ use std::io::{Cursor, Read, Seek, Write};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 
 use crate::{
-    cursor_ext::WriteExt,
+    cursor_ext::{ReadVecExt, WriteExt},
     error::{DeserializeError, Error},
 };
 
@@ -30,8 +30,7 @@ impl UnknownProperty {
         property_name: String,
         length: u32,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; length as usize];
-        cursor.read_exact(&mut data)?;
+        let data = cursor.read_vec(length)?;
 
         Ok(UnknownProperty {
             property_name,
-- 
2.43.0


From 4acf1c6c5f6a654589eb2536f6a5a4dead10ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:07 +0000
Subject: [PATCH 13/20] fix: detect damaged or incomplete compressed Palworld
 data

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index db1e2d3..5bc7380 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -86,7 +86,7 @@ use std::io::{Cursor, SeekFrom};
 use std::{
     collections::HashMap,
     fmt::Debug,
-    io::{Read, Seek, Write},
+    io::{self, Read, Seek, Write},
 };
 
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
@@ -438,6 +438,8 @@ impl GvasFile {
                     PalworldCompressionType::Zlib => {
                         let mut decoder = ZlibDecoder::new(cursor);
                         let zlib_data = decoder.read_vec(decompresed_length)?;
+                        // Read the stream to its end to verify the checksum
+                        io::copy(&mut decoder, &mut io::sink())?;
 
                         Cursor::new(zlib_data)
                     }
@@ -447,6 +449,12 @@ impl GvasFile {
 
                         let mut zlib_data = Vec::new();
                         decoder.read_to_end(&mut zlib_data)?;
+                        // Read the outer stream to its end to verify the checksum
+                        io::copy(&mut decoder.into_inner(), &mut io::sink())?;
+
+                        if zlib_data.len() < decompresed_length as usize {
+                            Err(io::Error::from(io::ErrorKind::UnexpectedEof))?
+                        }
 
                         Cursor::new(zlib_data)
                     }
-- 
2.43.0


From c54487bf4c5880e15620040160ef695cb4431536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:08 +0000
Subject: [PATCH 14/20] fix: reject unknown array and set elements that occupy
 no data

---
 src/properties/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index 36a7b60..c6a80ac 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -625,7 +625,10 @@ impl Property {
                     );
                 }
 
-                if let Some(suggested_length) = suggested_length {
+                // Empty elements are not backed by data, so their count can not be trusted
+                if let Some(suggested_length) = suggested_length
+                    && suggested_length > 0
+                {
                     return Ok(UnknownProperty::read_with_length(
                         cursor,
                         value_type.to_string(),
-- 
2.43.0


From ca48b11cf8e3cfa716f90feea436e941389ae434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:39 +0000
Subject: [PATCH 15/20] fix: limit the nesting depth while reading to avoid
 stack overflows

---
 src/properties/mod.rs           | 10 +++++++
 src/properties/text_property.rs | 53 +++++++++++++++++++++++++--------
 2 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/properties/mod.rs b/src/properties/mod.rs
index c6a80ac..a3539b7 100644
--- a/src/properties/mod.rs
+++ b/src/properties/mod.rs
@@ -64,6 +64,10 @@ pub mod text_property;
 /// Module for `UnknownProperty`
 pub mod unknown_property;
 
+/// The maximum number of names and types on the properties stack while reading, chosen such that
+/// reading does not overflow the stack of a thread.
+pub(crate) const MAX_PROPERTY_STACK: usize = 132;
+
 /// This macro generates a `read` function for reading GVAS property data from a reader.
 ///
 /// If `include_header` is true, it will read the property header first.
@@ -556,6 +560,12 @@ impl Property {
         options: &mut PropertyOptions,
         suggested_length: Option<u32>,
     ) -> Result<Self, Error> {
+        if options.properties_stack.len() >= MAX_PROPERTY_STACK {
+            Err(DeserializeError::invalid_property(
+                "Properties are nested too deeply",
+                cursor,
+            ))?
+        }
         with_stack_entry(options, value_type.to_string(), |options| {
             Self::read(
                 cursor,
diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index bb9a265..7d56e38 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -17,7 +17,9 @@ use crate::{
     error::{DeserializeError, Error},
 };
 
-use super::{PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write};
+use super::{
+    MAX_PROPERTY_STACK, PropertyOptions, PropertyTrait, impl_read, impl_read_header, impl_write,
+};
 
 /// A property that stores GVAS Text.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -113,8 +115,22 @@ impl FText {
     /// Read [`FText`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, options.properties_stack.len())
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: usize,
+    ) -> Result<Self, Error> {
+        if depth >= MAX_PROPERTY_STACK {
+            Err(DeserializeError::invalid_property(
+                "Texts are nested too deeply",
+                cursor,
+            ))?
+        }
         let flags = cursor.read_u32::<LittleEndian>()?;
-        let history = FTextHistory::read(cursor, options)?;
+        let history = FTextHistory::read_nested(cursor, options, depth)?;
 
         Ok(FText { flags, history })
     }
@@ -308,6 +324,14 @@ impl FTextHistory {
     /// Read [`FTextHistory`] from a cursor
     #[inline]
     pub fn read<R: Read + Seek>(cursor: &mut R, options: &PropertyOptions) -> Result<Self, Error> {
+        Self::read_nested(cursor, options, options.properties_stack.len())
+    }
+
+    fn read_nested<R: Read + Seek>(
+        cursor: &mut R,
+        options: &PropertyOptions,
+        depth: usize,
+    ) -> Result<Self, Error> {
         let history_type = cursor.read_enum()?;
 
         Ok(match history_type {
@@ -340,14 +364,14 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::NamedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 2)?);
 
                 let argument_count = read_argument_count(cursor)?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..argument_count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth)?;
                     arguments.insert(key, value);
                 }
 
@@ -357,13 +381,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::OrderedFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 2)?);
 
                 let count = read_argument_count(cursor)?;
                 let mut arguments = Vec::new();
 
                 for _ in 0..count {
-                    arguments.push(FormatArgumentValue::read(cursor, options)?);
+                    arguments.push(FormatArgumentValue::read(cursor, options, depth)?);
                 }
 
                 FTextHistory::OrderedFormat {
@@ -372,13 +396,13 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::ArgumentFormat => {
-                let source_format = Box::new(FText::read(cursor, options)?);
+                let source_format = Box::new(FText::read_nested(cursor, options, depth + 2)?);
                 let count = read_argument_count(cursor)?;
                 let mut arguments = HashableIndexMap::new();
 
                 for _ in 0..count {
                     let key = cursor.read_string()?;
-                    let value = FormatArgumentValue::read(cursor, options)?;
+                    let value = FormatArgumentValue::read(cursor, options, depth)?;
                     arguments.insert(key, value);
                 }
 
@@ -388,7 +412,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsNumber => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -406,7 +430,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::AsPercent => {
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -426,7 +450,7 @@ impl FTextHistory {
             TextHistoryType::AsCurrency => {
                 let currency_code = cursor.read_fstring()?;
 
-                let source_value = Box::new(FormatArgumentValue::read(cursor, options)?);
+                let source_value = Box::new(FormatArgumentValue::read(cursor, options, depth)?);
 
                 let has_format_options = cursor.read_b32()?;
                 let format_options = if has_format_options {
@@ -490,7 +514,7 @@ impl FTextHistory {
                 }
             }
             TextHistoryType::Transform => {
-                let source_text = Box::new(FText::read(cursor, options)?);
+                let source_text = Box::new(FText::read_nested(cursor, options, depth + 2)?);
                 let transform_type = cursor.read_enum()?;
 
                 FTextHistory::Transform {
@@ -773,6 +797,7 @@ impl FormatArgumentValue {
     pub(crate) fn read<R: Read + Seek>(
         cursor: &mut R,
         options: &PropertyOptions,
+        depth: usize,
     ) -> Result<Self, Error> {
         let format_argument_type = cursor.read_enum()?;
 
@@ -795,7 +820,9 @@ impl FormatArgumentValue {
             FormatArgumentType::Double => {
                 FormatArgumentValue::Double(cursor.read_f64::<LittleEndian>()?.into())
             }
-            FormatArgumentType::Text => FormatArgumentValue::Text(FText::read(cursor, options)?),
+            FormatArgumentType::Text => {
+                FormatArgumentValue::Text(FText::read_nested(cursor, options, depth + 2)?)
+            }
             FormatArgumentType::Gender => Err(DeserializeError::invalid_enum_value(
                 std::any::type_name::<FormatArgumentType>(),
                 format_argument_type.into(),
-- 
2.43.0


From 2ec9d0d782f1b9ad14aa8d26a854f646591fbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:40 +0000
Subject: [PATCH 16/20] fix: accept struct members whose array index differs
 from their position in debug builds

---
 src/properties/struct_property.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/properties/struct_property.rs b/src/properties/struct_property.rs
index c175764..727eb98 100644
--- a/src/properties/struct_property.rs
+++ b/src/properties/struct_property.rs
@@ -11,7 +11,7 @@ use crate::{
     cursor_ext::{ReadExt, WriteExt},
     custom_version::FUE5ReleaseStreamObjectVersion,
     error::{DeserializeError, Error, SerializeError},
-    properties::{name_property::NameProperty, struct_types::LinearColor},
+    properties::struct_types::LinearColor,
     scoped_stack_entry::with_stack_entry,
     types::{Guid, map::HashableIndexMap},
 };
@@ -182,20 +182,7 @@ impl StructProperty {
 }
 
 fn insert_property(map: &mut IndexMap<String, Vec<Property>>, key: String, property: Property) {
-    let entry = map.entry(key).or_default();
-    #[cfg(debug_assertions)]
-    {
-        let array_index = match property {
-            // TODO: Move array_index to the Property layer
-            Property::NameProperty(NameProperty { array_index, .. }) => array_index,
-            _ => 0,
-        };
-        let actual_array_index = entry.len() as u32;
-        // Ensure that the position in the array matches the array_index value,
-        // otherwise this conversion would cause data loss.
-        assert_eq!(actual_array_index, array_index);
-    }
-    entry.push(property);
+    map.entry(key).or_default().push(property);
 }
 
 impl PropertyTrait for StructProperty {
-- 
2.43.0


From 0cb8b49c379e45327c65112c5511d90c4fbdbe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:41 +0000
Subject: [PATCH 17/20] fix: write the correct compressed length and report
 write errors for Palworld saves

---
 src/lib.rs | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bc7380..a04d396 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,7 +82,7 @@ pub(crate) mod scoped_stack_entry;
 /// Various types.
 pub mod types;
 
-use std::io::{Cursor, SeekFrom};
+use std::io::Cursor;
 use std::{
     collections::HashMap,
     fmt::Debug,
@@ -326,6 +326,12 @@ impl GvasHeader {
     }
 }
 
+fn compress(data: &[u8]) -> Result<Vec<u8>, Error> {
+    let mut encoder = ZlibEncoder::new(Vec::new(), Compression::default());
+    encoder.write_all(data)?;
+    Ok(encoder.finish()?)
+}
+
 /// Main UE4 save file struct
 #[derive(Debug, Clone, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -541,33 +547,26 @@ impl GvasFile {
             DeserializedGameVersion::Palworld(compression_type) => {
                 let decompressed = writing_cursor.into_inner();
 
-                cursor.write_u32::<LittleEndian>(decompressed.len() as u32)?;
-                let compressed_length_pos = cursor.stream_position()?;
-                cursor.write_u32::<LittleEndian>(0)?; // Compressed length placeholder, will be updated later
-                cursor.write_all(PLZ_MAGIC)?;
-                cursor.write_enum(compression_type)?;
+                let decompressed_length = decompressed.len();
 
-                // Compress and write data directly to the output cursor
-                match compression_type {
-                    PalworldCompressionType::None => cursor.write_all(&decompressed)?,
+                // The compressed length of twice compressed data is its length after the first pass
+                let (compressed_length, payload) = match compression_type {
+                    PalworldCompressionType::None => (decompressed_length, decompressed),
                     PalworldCompressionType::Zlib => {
-                        let mut encoder = ZlibEncoder::new(cursor.by_ref(), Compression::new(6));
-                        encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        let compressed = compress(&decompressed)?;
+                        (compressed.len(), compressed)
                     }
                     PalworldCompressionType::ZlibTwice => {
-                        let encoder = ZlibEncoder::new(cursor.by_ref(), Compression::default());
-                        let mut encoder = ZlibEncoder::new(encoder, Compression::default());
-                        encoder.write_all(&decompressed)?;
-                        encoder.finish()?;
+                        let compressed = compress(&decompressed)?;
+                        (compressed.len(), compress(&compressed)?)
                     }
-                }
+                };
 
-                // Update compressed length
-                let end_pos = cursor.stream_position()?;
-                cursor.seek(SeekFrom::Start(compressed_length_pos))?;
-                cursor.write_u32::<LittleEndian>((end_pos - (compressed_length_pos + 4)) as u32)?;
-                cursor.seek(SeekFrom::Start(end_pos))?;
+                cursor.write_u32::<LittleEndian>(decompressed_length as u32)?;
+                cursor.write_u32::<LittleEndian>(compressed_length as u32)?;
+                cursor.write_all(PLZ_MAGIC)?;
+                cursor.write_enum(compression_type)?;
+                cursor.write_all(&payload)?;
             }
         }
         Ok(())
-- 
2.43.0


From 2cf18c002c8b209861d76f063218f8e305a87bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:42 +0000
Subject: [PATCH 18/20] fix: reject GUID strings with characters other than
 hexadecimal digits

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 22705f4..677d0dd 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -174,7 +174,7 @@ impl FromStr for Guid {
             return Ok(Guid([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From 52d1747004aa8b38bd7929395f6f12ec940eb040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:44 +0000
Subject: [PATCH 19/20] fix: hash maps independently of the order of their
 entries

---
 src/types.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 677d0dd..45c10d7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -211,7 +211,7 @@ impl<'de> serde::Deserialize<'de> for Guid {
 pub mod map {
     use std::{
         fmt::Debug,
-        hash::Hash,
+        hash::{DefaultHasher, Hash, Hasher},
         ops::{Deref, DerefMut},
     };
 
@@ -249,10 +249,15 @@ pub mod map {
         V: Hash,
     {
         fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-            for (key, value) in &self.0 {
-                key.hash(state);
-                value.hash(state);
+            // Equality does not depend on the order of the entries, so the hash must not either
+            let mut sum = 0u64;
+            for entry in &self.0 {
+                let mut hasher = DefaultHasher::new();
+                entry.hash(&mut hasher);
+                sum = sum.wrapping_add(hasher.finish());
             }
+            self.0.len().hash(state);
+            sum.hash(state);
         }
     }
 
-- 
2.43.0


From 449413da757494901bf296d57dd1bb4d023ad9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:07:45 +0000
Subject: [PATCH 20/20] fix: return errors for text values that the file
 version does not support

---
 src/properties/text_property.rs | 68 ++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/src/properties/text_property.rs b/src/properties/text_property.rs
index 7d56e38..c945bda 100644
--- a/src/properties/text_property.rs
+++ b/src/properties/text_property.rs
@@ -14,7 +14,7 @@ use crate::properties::struct_types::DateTime;
 use crate::types::map::HashableIndexMap;
 use crate::{
     cursor_ext::{ReadExt, WriteExt},
-    error::{DeserializeError, Error},
+    error::{DeserializeError, Error, SerializeError},
 };
 
 use super::{
@@ -561,15 +561,17 @@ impl FTextHistory {
             FTextHistory::None {
                 culture_invariant_string,
             } => {
-                let mut len = 1;
-                cursor.write_enum(TextHistoryType::None)?;
-                if options.supports_version(
+                if !options.supports_version(
                     FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
                 ) {
-                    len += 4;
-                    cursor.write_b32(true)?;
-                    len += cursor.write_fstring(culture_invariant_string.as_deref())?;
+                    Err(SerializeError::invalid_value(
+                        "FTextHistory::None requires CultureInvariantTextSerializationKeyStability",
+                    ))?
                 }
+                let mut len = 5;
+                cursor.write_enum(TextHistoryType::None)?;
+                cursor.write_b32(true)?;
+                len += cursor.write_fstring(culture_invariant_string.as_deref())?;
                 Ok(len)
             }
 
@@ -840,45 +842,49 @@ impl FormatArgumentValue {
     ) -> Result<usize, Error> {
         match self {
             FormatArgumentValue::Int(value) => {
-                assert!(
-                    !options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::Int is not compatible with TextFormatArgumentData64bitSupport"
-                );
+                if options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::Int is not compatible with TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::Int)?;
                 cursor.write_i32::<LittleEndian>(*value)?;
                 Ok(5)
             }
             FormatArgumentValue::Int64(value) => {
-                assert!(
-                    options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::Int64 requires TextFormatArgumentData64bitSupport"
-                );
+                if !options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::Int64 requires TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::Int)?;
                 cursor.write_i64::<LittleEndian>(*value)?;
                 Ok(9)
             }
             FormatArgumentValue::UInt(value) => {
-                assert!(
-                    !options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::UInt is not compatible with TextFormatArgumentData64bitSupport"
-                );
+                if options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::UInt is not compatible with TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::UInt)?;
                 cursor.write_u32::<LittleEndian>(*value)?;
                 Ok(5)
             }
             FormatArgumentValue::UInt64(value) => {
-                assert!(
-                    options.supports_version(
-                        FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
-                    ),
-                    "FormatArgumentValue::UInt64 requires TextFormatArgumentData64bitSupport"
-                );
+                if !options.supports_version(
+                    FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport,
+                ) {
+                    Err(SerializeError::invalid_value(
+                        "FormatArgumentValue::UInt64 requires TextFormatArgumentData64bitSupport",
+                    ))?
+                }
                 cursor.write_enum(FormatArgumentType::UInt)?;
                 cursor.write_u64::<LittleEndian>(*value)?;
                 Ok(9)
-- 
2.43.0

