From 02752d806fd08e7dd321332b2c3dcd225d2452f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 01/14] fix: do not overflow when computing the tableswitch
 jump count

---
 src/bytecode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index b9758e2..f4f6f7c 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -500,7 +500,7 @@ fn read_opcodes<'a>(
                 if low > high {
                     fail!("The low value must be less than or equal to the high value in tableswitch at index {}", ix - 4);
                 }
-                let jump_count = match usize::try_from(high - low + 1) {
+                let jump_count = match usize::try_from(i64::from(high) - i64::from(low) + 1) {
                     Ok(n) => n,
                     _ => fail!(
                         "Unable to convert range to usize in tableswitch at index {}",
-- 
2.43.0


From f3afdf40ac711d27f8aa66ffd7a167976a618021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 02/14] fix: do not overflow when computing a jump target

---
 src/bytecode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index f4f6f7c..e17a3cd 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -249,8 +249,10 @@ impl<'a> ByteCode<'a> {
     }
 
     fn validate_jump(&self, source_offset: i32, jump: JumpOffset) -> Result<(), ParseError> {
-        let target_offset = usize::try_from(source_offset + jump)
-            .map_err(|_| err!("Invalid destination after applying jump"))?;
+        let target_offset = source_offset
+            .checked_add(jump)
+            .and_then(|target| usize::try_from(target).ok())
+            .ok_or_else(|| err!("Invalid destination after applying jump"))?;
         if self.get_opcode_index(target_offset).is_none() {
             fail!("Invalid opcode offset after applying jump");
         }
-- 
2.43.0


From 8df280a778c0eff6e34a50e73771d82dc0baf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 03/14] fix: reject a long or double in the last constant pool
 entry

---
 src/constant_pool.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3721b02..126046b 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -690,6 +690,9 @@ pub(crate) fn read_constant_pool<'a>(
         if constant_type == 5 || constant_type == 6 {
             // long and double types take up two entries in the constant pool,
             // so eat up another index.
+            if cp_ix == count {
+                fail!("Long or double in the last constant pool entry leaves no room for its second entry");
+            }
             cp_ix += 1;
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
-- 
2.43.0


From 148dd64c2b3549c33a7515de81b1d66f8a7c5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 04/14] fix: reject NameAndType descriptors that are not
 representable as strings

---
 src/constant_pool.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 126046b..18711ea 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -395,6 +395,14 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// NameAndType descriptors are exposed as Rust strings, so they must be representable as such.
+    fn validate_descriptor_str(&self) -> Result<(), ParseError> {
+        match self {
+            ConstantPoolEntry::NameAndType(_, y) => peel!(y).str().map(|_| ()),
+            _ => Ok(()),
+        }
+    }
+
     fn utf8(&self) -> Cow<'a, str> {
         match self {
             ConstantPoolEntry::Utf8(x) => x.clone(),
@@ -645,6 +653,7 @@ fn validate_constant_pool(
     for (i, cp_entry) in constant_pool.iter().enumerate() {
         cp_entry
             .validate(major_version)
+            .and_then(|()| cp_entry.validate_descriptor_str())
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
     }
     Ok(())
-- 
2.43.0


From 0c990c0cfdd47bd2db4718bb88e8839c005a523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 05/14] fix: do not recurse through NameAndType reference
 cycles

---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 18711ea..24c241e 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -384,7 +384,13 @@ impl<'a> ConstantPoolEntry<'a> {
 
     fn validate_method_descriptor(&self) -> Result<(), ParseError> {
         match self {
-            ConstantPoolEntry::NameAndType(_, y) => peel!(y).validate_method_descriptor(),
+            ConstantPoolEntry::NameAndType(_, y) => {
+                if is_method_descriptor(peel!(y).str()?) {
+                    Ok(())
+                } else {
+                    fail!("Invalid method descriptor")
+                }
+            }
             _ => {
                 if is_method_descriptor(self.str()?) {
                     Ok(())
-- 
2.43.0


From c53d3d1bea075ab5619b9d59b8b2f30e3693a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 06/14] fix: limit the nesting depth of annotation element
 values

---
 src/attributes.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c320f57..f8dec27 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -644,11 +644,19 @@ fn read_localvariabletype_data<'a>(
     Ok(localvariabletypes)
 }
 
+/// How deeply annotation element values can be nested inside each other. The limit keeps the
+/// recursion needed to read them from being controlled by the input.
+const MAX_ANNOTATION_NESTING: usize = 64;
+
 fn read_annotation_element_value<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<AnnotationElementValue<'a>, ParseError> {
+    if depth > MAX_ANNOTATION_NESTING {
+        fail!("Annotation element values are nested too deeply");
+    }
     let value = match read_u1(bytes, ix)? as char {
         'B' => AnnotationElementValue::ByteConstant(read_cp_integer(bytes, ix, pool)?),
         'C' => AnnotationElementValue::CharConstant(read_cp_integer(bytes, ix, pool)?),
@@ -676,13 +684,15 @@ fn read_annotation_element_value<'a>(
             }
             AnnotationElementValue::ClassLiteral { class_name }
         }
-        '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
+        '@' => {
+            AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool, depth + 1)?)
+        }
         '[' => {
             let count = read_u2(bytes, ix)?;
             let mut array_values = Vec::with_capacity(count.into());
             for i in 0..count {
                 array_values.push(
-                    read_annotation_element_value(bytes, ix, pool)
+                    read_annotation_element_value(bytes, ix, pool, depth + 1)
                         .map_err(|e| err!(e, "array index {}", i))?,
                 );
             }
@@ -697,6 +707,7 @@ fn read_annotation<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
         .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
@@ -705,7 +716,7 @@ fn read_annotation<'a>(
     let mut elements = Vec::with_capacity(element_count.into());
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
-        let value = read_annotation_element_value(bytes, ix, pool)
+        let value = read_annotation_element_value(bytes, ix, pool, depth)
             .map_err(|e| err!(e, "value of element {}", i))?;
         elements.push(AnnotationElement { name, value });
     }
@@ -724,7 +735,7 @@ fn read_annotation_data<'a>(
     let mut annotations = Vec::with_capacity(count.into());
     for i in 0..count {
         annotations
-            .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
+            .push(read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "annotation {}", i))?);
     }
     Ok(annotations)
 }
@@ -741,7 +752,7 @@ fn read_parameter_annotation_data<'a>(
         let mut annotations = Vec::with_capacity(annotation_count.into());
         for j in 0..annotation_count {
             annotations.push(
-                read_annotation(bytes, ix, pool)
+                read_annotation(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "annotation {} of parameter {}", j, i))?,
             );
         }
@@ -826,7 +837,7 @@ fn read_type_annotation_data<'a>(
             });
         }
         let annotation =
-            read_annotation(bytes, ix, pool).map_err(|e| err!(e, "type annotation {}", i))?;
+            read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "type annotation {}", i))?;
         annotations.push(TypeAnnotation {
             target_type,
             target_path,
@@ -1183,7 +1194,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::RuntimeInvisibleTypeAnnotations(annotation_data)
             }
             "AnnotationDefault" => {
-                let element_value = read_annotation_element_value(bytes, ix, pool)
+                let element_value = read_annotation_element_value(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "AnnotationDefault attribute {}", i))?;
                 AttributeData::AnnotationDefault(element_value)
             }
-- 
2.43.0


From b479bf132ef1326ac26d72597d18b41c5aa38a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 07/14] fix: limit the nesting depth of attributes

---
 src/attributes.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index f8dec27..8a8ba6c 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -369,6 +369,7 @@ fn read_code_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<CodeData<'a>, ParseError> {
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
@@ -396,8 +397,8 @@ fn read_code_data<'a>(
             catch_type,
         });
     }
-    let code_attributes =
-        read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "code attribute"))?;
+    let code_attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
+        .map_err(|e| err!(e, "code attribute"))?;
     let bytecode = if opts.parse_bytecode {
         Some(ByteCode::from(code, pool).map_err(|e| err!(e, "bytecode"))?)
     } else {
@@ -1037,6 +1038,7 @@ fn read_record_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
     let mut components = Vec::with_capacity(count.into());
@@ -1048,8 +1050,8 @@ fn read_record_data<'a>(
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
-        let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
+        let attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
+            .map_err(|e| err!(e, "entry {}", i))?;
         components.push(RecordComponentEntry {
             name,
             descriptor,
@@ -1065,6 +1067,23 @@ pub(crate) fn read_attributes<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    read_nested_attributes(bytes, ix, pool, opts, 0)
+}
+
+/// How deeply attributes can be nested inside each other. The limit keeps the recursion needed
+/// to read them from being controlled by the input.
+const MAX_ATTRIBUTE_NESTING: usize = 8;
+
+fn read_nested_attributes<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    opts: &ParseOptions,
+    depth: usize,
+) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    if depth > MAX_ATTRIBUTE_NESTING {
+        fail!("Attributes are nested too deeply");
+    }
     let count = read_u2(bytes, ix)?;
     let mut attributes = Vec::with_capacity(count.into());
     for i in 0..count {
@@ -1087,7 +1106,7 @@ pub(crate) fn read_attributes<'a>(
                 )
             }
             "Code" => {
-                let code_data = read_code_data(bytes, ix, pool, opts)
+                let code_data = read_code_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Code attribute {}", i))?;
                 AttributeData::Code(code_data)
             }
@@ -1241,7 +1260,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::PermittedSubclasses(permitted_subclasses_data)
             }
             "Record" => {
-                let record_data = read_record_data(bytes, ix, pool, opts)
+                let record_data = read_record_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Record attribute {}", i))?;
                 AttributeData::Record(record_data)
             }
-- 
2.43.0


From 184f41fb7eef60bd11c4b4e9de2894a08949989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 08/14] fix: do not allocate more switch entries than the code
 can hold

---
 src/bytecode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index e17a3cd..ea75c24 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -509,7 +509,7 @@ fn read_opcodes<'a>(
                         ix - 4
                     ),
                 };
-                let mut jumps = Vec::with_capacity(jump_count);
+                let mut jumps = Vec::with_capacity(jump_count.min((code.len() - ix) / 4));
                 for _ in 0..jump_count {
                     jumps.push(read_u4(code, &mut ix)? as JumpOffset);
                 }
@@ -538,7 +538,7 @@ fn read_opcodes<'a>(
                         ix - 4
                     ),
                 };
-                let mut match_offsets = Vec::with_capacity(pair_count);
+                let mut match_offsets = Vec::with_capacity(pair_count.min((code.len() - ix) / 8));
                 for _ in 0..pair_count {
                     let match_part = read_u4(code, &mut ix)? as i32;
                     let offset_part = read_u4(code, &mut ix)? as JumpOffset;
-- 
2.43.0


From cf7384214ff4e77bf62f70e5dba8b88ef2095c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 09/14] fix: do not overflow on 32-bit targets when checking
 lengths

---
 src/attributes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index 8a8ba6c..c3b0037 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -374,7 +374,7 @@ fn read_code_data<'a>(
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
     let code_length = read_u4(bytes, ix)? as usize;
-    if bytes.len() < *ix + code_length {
+    if bytes.len() - *ix < code_length {
         fail!(
             "Unexpected end of stream reading code attribute at index {}",
             *ix
@@ -1090,13 +1090,13 @@ fn read_nested_attributes<'a>(
         let name =
             read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name field of attribute {}", i))?;
         let length = read_u4(bytes, ix)? as usize;
-        let expected_end_ix = *ix + length;
-        if bytes.len() < expected_end_ix {
+        if bytes.len() - *ix < length {
             fail!(
                 "Unexpected end of stream reading attributes at index {}",
                 *ix
             );
         }
+        let expected_end_ix = *ix + length;
         let data = match name.deref() {
             "ConstantValue" => {
                 ensure_length(length, 2).map_err(|e| err!(e, "ConstantValue attribute {}", i))?;
-- 
2.43.0


From 88cf9cd28a20a89cdb86da12a5a1b3f77fcab512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 10/14] fix: reject empty class names and class names ending in
 a slash

---
 src/descriptors.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index eadf427..af7dc0f 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -36,6 +36,7 @@ impl<'a> TryFrom<Cow<'a, str>> for ClassName<'a> {
         let mut index = 0;
         loop {
             match parse_unqualified_segment(&value[index..])? {
+                ("", None) => fail!("Empty unqualified segment in class name"),
                 (_, None) => break,
                 (_, Some(';')) => fail!("Disallowed ';' in class name"),
                 (segment, Some('/')) => index += segment.len() + 1,
-- 
2.43.0


From 3ce97add59a30e4c1c78bac29eb76974a11b19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 11/14] fix: accept angle brackets in class names

---
 src/descriptors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index af7dc0f..886df7a 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -16,7 +16,7 @@ fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseEr
             '/' if ix == 0 => fail!("Unexpected '/' at start of unqualified segment"),
             ';' if ix == 0 => fail!("Unexpected ';' at start of unqualified segment"),
             '/' | ';' => return Ok((&data[0..ix], Some(c))),
-            '.' | '[' | '<' | '>' => fail!("Disallowed character in unqualified segment"),
+            '.' | '[' => fail!("Disallowed character in unqualified segment"),
             _ => (),
         };
     }
-- 
2.43.0


From e422371e1ad9c89d46873ba77e21565429159fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 12/14] fix: reject descriptors that have anything following
 them

---
 src/attributes.rs  | 10 +++++-----
 src/descriptors.rs | 28 ++++++++++++++++++++++++++--
 src/lib.rs         |  8 ++++----
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c3b0037..3f9ee13 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -11,7 +11,7 @@ use crate::constant_pool::{
 use crate::constant_pool::{
     BootstrapArgument, ConstantPoolEntry, LiteralConstant, MethodHandle, NameAndType,
 };
-use crate::descriptors::{is_return_descriptor, parse_field_descriptor, FieldDescriptor};
+use crate::descriptors::{is_return_descriptor, parse_whole_field_descriptor, FieldDescriptor};
 use crate::names::is_unqualified_name;
 use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
 
@@ -603,7 +603,7 @@ fn read_localvariable_data<'a>(
             fail!("Invalid unqualified name for variable {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor for variable {}", i))?;
         let index = read_u2(bytes, ix)?;
         localvariables.push(LocalVariableEntry {
@@ -670,7 +670,7 @@ fn read_annotation_element_value<'a>(
         's' => AnnotationElementValue::StringConstant(read_cp_utf8(bytes, ix, pool)?),
         'e' => {
             let type_name = read_cp_utf8(bytes, ix, pool)
-                .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+                .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
                 .map_err(|e| err!(e, "annotation element value enum descriptor"))?;
             let const_name = read_cp_utf8(bytes, ix, pool)?;
             AnnotationElementValue::EnumConstant {
@@ -711,7 +711,7 @@ fn read_annotation<'a>(
     depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
-        .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+        .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
     let mut elements = Vec::with_capacity(element_count.into());
@@ -1048,7 +1048,7 @@ fn read_record_data<'a>(
             fail!("Invalid unqualified name for entry {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
         let attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
             .map_err(|e| err!(e, "entry {}", i))?;
diff --git a/src/descriptors.rs b/src/descriptors.rs
index 886df7a..69ccdbf 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -162,9 +162,21 @@ impl fmt::Display for FieldDescriptor<'_> {
     }
 }
 
+// Parse the field descriptor that makes up the given data as a whole. Returns an error if the
+// data isn't a field descriptor, or has anything following it.
+pub(crate) fn parse_whole_field_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<FieldDescriptor<'a>, ParseError> {
+    let desc = parse_field_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Extra data following field descriptor")
+    }
+    Ok(desc)
+}
+
 // Parse the field descriptor at the start of the given data, and ignores anything
 // following. Returns an error if the data don't start with a field descriptor.
-pub(crate) fn parse_field_descriptor<'a>(
+fn parse_field_descriptor<'a>(
     data: &Cow<'a, str>,
     index: usize,
 ) -> Result<FieldDescriptor<'a>, ParseError> {
@@ -262,7 +274,19 @@ impl MethodDescriptor<'_> {
     }
 }
 
-pub(crate) fn parse_method_descriptor<'a>(
+// Parse the method descriptor that makes up the given data as a whole. Returns an error if the
+// data isn't a method descriptor, or has anything following it.
+pub(crate) fn parse_whole_method_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<MethodDescriptor<'a>, ParseError> {
+    let desc = parse_method_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Extra data following method descriptor")
+    }
+    Ok(desc)
+}
+
+fn parse_method_descriptor<'a>(
     data: &Cow<'a, str>,
     mut index: usize,
 ) -> Result<MethodDescriptor<'a>, ParseError> {
diff --git a/src/lib.rs b/src/lib.rs
index e1683e1..bc4f9f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,8 +31,8 @@ use crate::constant_pool::{
     ConstantPoolIter,
 };
 use crate::descriptors::{
-    parse_field_descriptor, parse_method_descriptor, ClassName, FieldDescriptor, MethodDescriptor,
-    ReturnDescriptor,
+    parse_whole_field_descriptor, parse_whole_method_descriptor, ClassName, FieldDescriptor,
+    MethodDescriptor, ReturnDescriptor,
 };
 pub use crate::error::ParseError;
 use crate::names::{is_unqualified_method_name, is_unqualified_name};
@@ -176,7 +176,7 @@ fn read_fields<'a>(
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .map_err(|e| err!(e, "descriptor of class field {}", i))?;
-        let descriptor = parse_field_descriptor(&descriptor, 0)?;
+        let descriptor = parse_whole_field_descriptor(&descriptor)?;
 
         let unique_id = (name.clone(), descriptor.clone());
         if !unique_ids.insert(unique_id) {
@@ -242,7 +242,7 @@ fn read_methods<'a>(
             fail!("Invalid unqualified name for class method {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|d| parse_method_descriptor(&d, 0))
+            .and_then(|d| parse_whole_method_descriptor(&d))
             .map_err(|e| err!(e, "descriptor of class method {}", i))?;
 
         if allow_init && name == "<init>" && descriptor.return_type != ReturnDescriptor::Void {
-- 
2.43.0


From 0b2374ca95a0ceb4412babd2189e7215185f5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 13/14] fix: check the type of constant pool entries before
 linking them

Linking first and validating later let a crafted pool build a chain of
65534 entries (or a reference cycle, which leaks), which overflows the
stack when the chain is dropped recursively.
---
 src/constant_pool.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 24c241e..a5328dd 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -32,6 +32,7 @@ impl<'a> ConstantPoolRef<'a> {
         &mut self,
         my_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
+        allowed: ConstantPoolEntryTypes,
     ) -> Result<(), ParseError> {
         match self {
             ConstantPoolRef::Unresolved(ix) => {
@@ -46,6 +47,9 @@ impl<'a> ConstantPoolRef<'a> {
                         target
                     );
                 }
+                // Only link entries of the expected type, so that the entries cannot form
+                // cycles or arbitrarily long chains (which are dropped recursively).
+                pool[target].ensure_type(allowed)?;
                 *self = ConstantPoolRef::Resolved(pool[target].clone());
                 Ok(())
             }
@@ -80,6 +84,7 @@ trait CafeCellDeref<'a> {
         &self,
         cp_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
+        allowed: ConstantPoolEntryTypes,
     ) -> Result<(), ParseError>;
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError>;
 }
@@ -89,11 +94,16 @@ impl<'a> CafeCellDeref<'a> for CafeCell<ConstantPoolRef<'a>> {
         &self,
         cp_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
+        allowed: ConstantPoolEntryTypes,
     ) -> Result<(), ParseError> {
         #[cfg(not(feature = "threadsafe"))]
-        return self.borrow_mut().resolve(cp_index, pool);
+        return self.borrow_mut().resolve(cp_index, pool, allowed);
         #[cfg(feature = "threadsafe")]
-        return self.lock().unwrap().deref_mut().resolve(cp_index, pool);
+        return self
+            .lock()
+            .unwrap()
+            .deref_mut()
+            .resolve(cp_index, pool, allowed);
     }
 
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
@@ -137,6 +147,7 @@ bitflags! {
         const UNUSED = 0x0004_0000;
 
         const NEW_METHOD_REFS = Self::METHOD_REF.bits() | Self::INTERFACE_METHOD_REF.bits();
+        const MEMBER_REFS = Self::FIELD_REF.bits() | Self::NEW_METHOD_REFS.bits();
         const CONSTANTS = Self::INTEGER.bits() | Self::FLOAT.bits() | Self::LONG.bits() | Self::DOUBLE.bits() | Self::STRING.bits();
         const BOOTSTRAP_ARGUMENT = Self::CONSTANTS.bits() | Self::CLASS_INFO.bits() | Self::METHOD_HANDLE.bits() | Self::METHOD_TYPE.bits();
         const LOADABLE = Self::CONSTANTS.bits() | Self::CLASS_INFO.bits() | Self::METHOD_HANDLE.bits() | Self::METHOD_TYPE.bits() | Self::DYNAMIC.bits();
@@ -189,20 +200,28 @@ impl<'a> ConstantPoolEntry<'a> {
             // Entry types that reference one other entry:
             ConstantPoolEntry::ClassInfo(x)
             | ConstantPoolEntry::String(x)
-            | ConstantPoolEntry::MethodHandle(_, x)
             | ConstantPoolEntry::MethodType(x)
-            | ConstantPoolEntry::Dynamic(_, x)
-            | ConstantPoolEntry::InvokeDynamic(_, x)
             | ConstantPoolEntry::ModuleInfo(x)
-            | ConstantPoolEntry::PackageInfo(x) => x.resolve(my_index, pool),
+            | ConstantPoolEntry::PackageInfo(x) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::UTF8)
+            }
+            ConstantPoolEntry::MethodHandle(_, x) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::MEMBER_REFS)
+            }
+            ConstantPoolEntry::Dynamic(_, x) | ConstantPoolEntry::InvokeDynamic(_, x) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::NAME_AND_TYPE)
+            }
 
             // Entry types that reference two other entries:
             ConstantPoolEntry::FieldRef(x, y)
             | ConstantPoolEntry::MethodRef(x, y)
-            | ConstantPoolEntry::InterfaceMethodRef(x, y)
-            | ConstantPoolEntry::NameAndType(x, y) => {
-                x.resolve(my_index, pool)?;
-                y.resolve(my_index, pool)
+            | ConstantPoolEntry::InterfaceMethodRef(x, y) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::CLASS_INFO)?;
+                y.resolve(my_index, pool, ConstantPoolEntryTypes::NAME_AND_TYPE)
+            }
+            ConstantPoolEntry::NameAndType(x, y) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::UTF8)?;
+                y.resolve(my_index, pool, ConstantPoolEntryTypes::UTF8)
             }
         }
     }
-- 
2.43.0


From f5cd58c30e1fc4275a054cc282d061f8371e7566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:39 +0000
Subject: [PATCH 14/14] fix: check the names of methods in constant pool
 references

Per JVMS 4.2.2 and 4.4.2 the name of a method reference must be a method
name, and the only special name allowed is that of an instance
initialization method, whose return type is void. References like
Foo.<bar>()V or Foo.<init>()I were accepted.
---
 src/constant_pool.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index a5328dd..edece0d 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -269,12 +269,14 @@ impl<'a> ConstantPoolEntry<'a> {
             ConstantPoolEntry::MethodRef(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::CLASS_INFO)?;
                 y.ensure_type(ConstantPoolEntryTypes::NAME_AND_TYPE)?;
-                peel!(y).validate_method_descriptor()
+                peel!(y).validate_method_descriptor()?;
+                peel!(y).validate_method_name()
             }
             ConstantPoolEntry::InterfaceMethodRef(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::CLASS_INFO)?;
                 y.ensure_type(ConstantPoolEntryTypes::NAME_AND_TYPE)?;
-                peel!(y).validate_method_descriptor()
+                peel!(y).validate_method_descriptor()?;
+                peel!(y).validate_method_name()
             }
             ConstantPoolEntry::NameAndType(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::UTF8)?;
@@ -420,6 +422,23 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Per 4.4.2, the only special name a method reference can have is that of an instance
+    /// initialization method, whose return type is void.
+    fn validate_method_name(&self) -> Result<(), ParseError> {
+        match self {
+            ConstantPoolEntry::NameAndType(x, y) => {
+                if !is_unqualified_method_name(peel!(x).str()?, true, false) {
+                    fail!("Invalid method name");
+                }
+                if peel!(x).str()? == "<init>" && !peel!(y).str()?.ends_with(")V") {
+                    fail!("Non-void method descriptor for init method");
+                }
+                Ok(())
+            }
+            _ => panic!("Attempting to get name from non-NameAndType constant pool entry!"),
+        }
+    }
+
     /// NameAndType descriptors are exposed as Rust strings, so they must be representable as such.
     fn validate_descriptor_str(&self) -> Result<(), ParseError> {
         match self {
-- 
2.43.0

