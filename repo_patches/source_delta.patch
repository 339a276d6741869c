From 433fc34ee48241c8ea6c5a1bdbc75b3405ee2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 01/62] fix: hash and order identifiers case-insensitively, as
 they compare

---
 atelier-core/src/model/identity.rs | 47 ++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index ccd0764..6750c0d 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -3,8 +3,9 @@ use crate::syntax::{
     SHAPE_ID_ABSOLUTE_SEPARATOR, SHAPE_ID_MEMBER_SEPARATOR, SHAPE_ID_NAMESPACE_SEPARATOR,
 };
 use regex::Regex;
+use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -18,8 +19,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct Identifier(String);
 
 ///
@@ -30,9 +30,8 @@ pub struct Identifier(String);
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct NamespaceID(String);
 
 ///
@@ -132,6 +131,25 @@ impl PartialEq for Identifier {
     }
 }
 
+// The case-insensitive equality above requires that `Hash` and `Ord` ignore case as well.
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Identifier {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl Identifier {
     /// Create a new instance **without** checking that the provided string is a legal identifier.
     pub fn new_unchecked(s: &str) -> Self {
@@ -178,6 +196,25 @@ impl PartialEq for NamespaceID {
     }
 }
 
+// The case-insensitive equality above requires that `Hash` and `Ord` ignore case as well.
+impl Hash for NamespaceID {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for NamespaceID {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for NamespaceID {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl NamespaceID {
     /// Create a new instance **without** checking that the provided string is a legal namespace.
     pub fn new_unchecked(s: &str) -> Self {
-- 
2.43.0


From 6caa530e96006a11379b62b3fd6117b9eaedef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 02/62] fix: has_shape, has_metadata_value, has_member and
 has_identifier were inverted

---
 atelier-core/src/model/mod.rs              | 4 ++--
 atelier-core/src/model/shapes/aggregate.rs | 2 +-
 atelier-core/src/model/shapes/service.rs   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index de723e8..3fa2bfa 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -125,7 +125,7 @@ impl Model {
 
     /// Returns `true` if this model's **metadata** collection has a shape with the provided key`, else `false`.
     pub fn has_metadata_value(&self, key: &str) -> bool {
-        !self.metadata.contains_key(key)
+        self.metadata.contains_key(key)
     }
 
     /// Returns the value in this model's **metadata** collection with the provide key.
@@ -189,7 +189,7 @@ impl Model {
 
     /// Returns `true` if this model's **shapes** collection has a shape with the provided `ShapeID`, else `false`.
     pub fn has_shape(&self, shape_id: &ShapeID) -> bool {
-        !self.shapes.contains_key(shape_id)
+        self.shapes.contains_key(shape_id)
     }
 
     /// Returns the shape in this model's **shapes** collection with the provided `ShapeID`.
diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index e13a341..512a3ef 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -200,7 +200,7 @@ impl StructureOrUnion {
 
     /// Returns `true` if this structure or union has a member with the given name, else `false`.
     pub fn has_member(&self, member_name: &Identifier) -> bool {
-        !self.members.contains_key(member_name)
+        self.members.contains_key(member_name)
     }
 
     /// Returns the member in the structure or union with the given name, else `None`.
diff --git a/atelier-core/src/model/shapes/service.rs b/atelier-core/src/model/shapes/service.rs
index 9c5827e..1f789e9 100644
--- a/atelier-core/src/model/shapes/service.rs
+++ b/atelier-core/src/model/shapes/service.rs
@@ -171,7 +171,7 @@ impl Resource {
 
     /// Returns `true` if this resource has an identifier with the provided name, else `false`.
     pub fn has_identifier(&self, name: &Identifier) -> bool {
-        !self.identifiers.contains_key(name)
+        self.identifiers.contains_key(name)
     }
 
     /// Returns the identifier's value, which should always be `Value::String`, representing the
-- 
2.43.0


From 6fc0fd0ccba6d7cefe5f6b1ec796dded2077538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 03/62] fix: merging structures or unions with different member
 names is a conflict, not a panic

---
 atelier-core/src/model/shapes/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 714bea5..4decd87 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -361,17 +361,19 @@ impl NonTraitEq for TopLevelShape {
                 (ShapeKind::Structure(l), ShapeKind::Structure(r)) => {
                     l.members.keys().count() == r.members.keys().count()
                         && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                            match (l.member(k), r.member(k)) {
+                                (Some(l), Some(r)) => l.equal_without_traits(r),
+                                _ => false,
+                            }
                         })
                 }
                 (ShapeKind::Union(l), ShapeKind::Union(r)) => {
                     l.members.keys().count() == r.members.keys().count()
                         && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                            match (l.member(k), r.member(k)) {
+                                (Some(l), Some(r)) => l.equal_without_traits(r),
+                                _ => false,
+                            }
                         })
                 }
                 (ShapeKind::Service(l), ShapeKind::Service(r)) => l == r,
-- 
2.43.0


From 281a7d7dbe467f6f1f4e15ce3d8665c25c29623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 04/62] fix: ModelBuilder::set builds a set, not a list

---
 atelier-core/src/builder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 58f9ee1..5e08718 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -423,7 +423,7 @@ impl ModelBuilder {
         }
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::List(ListOrSet::from(MemberShape::with_traits(
+            ShapeKind::Set(ListOrSet::from(MemberShape::with_traits(
                 builder.member.member_name.clone(),
                 target_id,
                 self.make_traits(&builder.member.applied_traits, references)?,
-- 
2.43.0


From ebb2de5c27e9597c3c8e1057f7f152aa042ea46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 05/62] fix: fail_fast inspects the issues of the action before
 they are moved away

---
 atelier-core/src/action/lint/mod.rs     | 9 ++++-----
 atelier-core/src/action/validate/mod.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index d36518d..aa8a109 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -98,12 +98,11 @@ pub fn run_linter_actions(
     for linter in linters.iter_mut() {
         linter.check(model)?;
         let new_issues = linter.issues_mut();
+        let failed = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && failed {
             break;
         }
     }
diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 57e1737..b1ba73d 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -45,12 +45,11 @@ pub fn run_validation_actions(
     for validator in validators.iter_mut() {
         validator.validate(model)?;
         let new_issues = validator.issues_mut();
+        let failed = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && failed {
             break;
         }
     }
-- 
2.43.0


From 8a8ed8fa72efb4bc359009e9bab876d69f0b461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 06/62] fix: write_model_to_file creates the file it writes

---
 atelier-core/src/io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/io/mod.rs b/atelier-core/src/io/mod.rs
index b071ccf..a5d9825 100644
--- a/atelier-core/src/io/mod.rs
+++ b/atelier-core/src/io/mod.rs
@@ -111,7 +111,7 @@ pub fn write_model_to_file(
     model: &Model,
     path: PathBuf,
 ) -> ModelResult<()> {
-    let mut file = File::open(path)?;
+    let mut file = File::create(path)?;
     w.write(&mut file, model)?;
     Ok(())
 }
-- 
2.43.0


From 93b291ec99fc0179cee147ff8c32967b4cbd85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 07/62] fix: cargo-atelier creates the output files it is asked
 to write

---
 cargo-atelier/src/actions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 9116673..2a76715 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -83,7 +83,7 @@ fn write_model(
 ) -> Result<(), Box<dyn Error>> {
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
 
     match output_format {
@@ -136,7 +136,7 @@ fn document_a_file(
 
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
     write_document(&document, output_format, &mut file)?;
     Ok(())
-- 
2.43.0


From 13ae09dd47a8134f27540fec7bb2b4cd107ec728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 08/62] fix: JSON reader names the key and value members of a
 map

---
 atelier-json/src/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 1e4ed30..fedfa8e 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -141,16 +141,16 @@ impl JsonReader {
                 Ok(ShapeKind::Unresolved)
             } else if s == SHAPE_LIST {
                 Ok(ShapeKind::List(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_SET {
                 Ok(ShapeKind::Set(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_MAP {
                 Ok(ShapeKind::Map(MapShape::from(
-                    self.member(outer.get(MEMBER_KEY))?,
-                    self.member(outer.get(MEMBER_VALUE))?,
+                    self.member(MEMBER_KEY, outer.get(MEMBER_KEY))?,
+                    self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
                 let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
@@ -369,11 +369,11 @@ impl JsonReader {
         .into())
     }
 
-    fn member(&self, member: Option<&Value>) -> ModelResult<MemberShape> {
+    fn member(&self, name: &str, member: Option<&Value>) -> ModelResult<MemberShape> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
-                    Identifier::new_unchecked(MEMBER_MEMBER),
+                    Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
                 if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-- 
2.43.0


From 5e9738257550a3930ae95434771b9984bca1dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 09/62] fix: JSON reader rejects integers it cannot represent
 instead of wrapping them

---
 atelier-json/src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index fedfa8e..0769cbb 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -412,9 +412,8 @@ impl JsonReader {
                     Ok(NodeValue::from(v.as_f64().unwrap()))
                 } else if v.is_i64() {
                     Ok(NodeValue::from(v.as_i64().unwrap()))
-                } else if v.is_u64() {
-                    Ok(NodeValue::from(v.as_u64().unwrap() as i64))
                 } else {
+                    // An unsigned value beyond `i64::MAX`, which a model value cannot hold.
                     Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
                         "JsonReader::value".to_string(),
-- 
2.43.0


From 2afbf0806118d3044f8d9d0b8eca7fd7e27b3846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 10/62] fix: JSON reader reports an empty service version
 instead of panicking

---
 atelier-json/src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 0769cbb..ef879ef 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -176,6 +176,9 @@ impl JsonReader {
                 } else {
                     return Err(ErrorKind::InvalidVersionNumber(None).into());
                 };
+                if version.is_empty() {
+                    return Err(ErrorKind::InvalidVersionNumber(Some(version)).into());
+                }
                 let mut service = Service::new(&version);
                 service.append_operations(&self.target_list(outer.get(MEMBER_OPERATIONS))?);
                 service.append_resources(&self.target_list(outer.get(MEMBER_RESOURCES))?);
-- 
2.43.0


From a569a8ad9c0f86e58fea06804e387b3445716cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 11/62] fix: JSON writer does not panic on non-finite numbers

---
 atelier-json/src/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atelier-json/src/writer.rs b/atelier-json/src/writer.rs
index e92f01b..2a1cca8 100644
--- a/atelier-json/src/writer.rs
+++ b/atelier-json/src/writer.rs
@@ -330,7 +330,8 @@ fn from_value(value: &NodeValue) -> Value {
         }
         NodeValue::Number(v) => match v {
             Number::Integer(v) => Value::Number((*v).into()),
-            Number::Float(v) => Value::Number(JsonNumber::from_f64(*v).unwrap()),
+            // JSON has no NaN or infinity; use `null` for these, as `serde_json` does.
+            Number::Float(v) => JsonNumber::from_f64(*v).map_or(Value::Null, Value::Number),
         },
         NodeValue::Boolean(v) => Value::Bool(*v),
         NodeValue::String(v) => Value::String(v.clone()),
-- 
2.43.0


From 05a66335aba29adbbf0b0f8d95aaf886eca33075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 12/62] fix: JSON reader does not print to standard output

---
 atelier-json/src/reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index ef879ef..ad8f774 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -310,7 +310,6 @@ impl JsonReader {
             let mut hash: HashMap<Identifier, ShapeID> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    println!("{:?}: {:?}", obj_key, obj);
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
                     let _ = hash.insert(key, value);
-- 
2.43.0


From 6892fe3dd56aefc3c43ad46523ea965c9bd4e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 13/62] fix: the 'number' selector matches byte and long shapes

---
 atelier-query/src/evaluate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index ed92c58..5ed436f 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -143,9 +143,11 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
                     shape_body,
                     Simple::BigDecimal
                         | Simple::BigInteger
+                        | Simple::Byte
                         | Simple::Double
                         | Simple::Float
                         | Simple::Integer
+                        | Simple::Long
                         | Simple::Short
                 )
             } else {
-- 
2.43.0


From 97f451de44bf40b7d61bac8f277ecbde41ea4066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 14/62] fix: the 'collection' selector matches lists and sets,
 not maps

---
 atelier-query/src/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index 5ed436f..78787d9 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -155,7 +155,7 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
             }
         }
         ShapeType::SimpleType => shape_body.is_simple(),
-        ShapeType::Collection => shape_body.is_list() || shape_body.is_set() || shape_body.is_map(),
+        ShapeType::Collection => shape_body.is_list() || shape_body.is_set(),
         ShapeType::Blob => {
             shape_body.is_simple() && matches!(shape.body().as_simple().unwrap(), Simple::Blob)
         }
-- 
2.43.0


From 0339432cbcd577fd9dc919ab58795b228a9e149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 15/62] fix: UnwelcomeTerms checks names that differ only in
 case separately

---
 atelier-core/src/action/lint/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index aa8a109..b1640dc 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -72,7 +72,7 @@ conventions described in the Smithy [style guide](https://awslabs.github.io/smit
 linter_or_validator_defn! {
     UnwelcomeTerms
     {
-        checked: RefCell<HashSet<Identifier>>
+        checked: RefCell<HashSet<String>>
     },
     "This will report any use of any unwelcome, or problematic terms in names."
 }
@@ -242,9 +242,11 @@ impl UnwelcomeTerms {
 
     #[inline]
     fn check_identifier(&mut self, id: &Identifier, in_shape: Option<&ShapeID>) {
-        if !self.checked.borrow().contains(id) {
-            let _ = self.checked.borrow_mut().insert(id.clone());
-            for word in terms::split_words(&id.to_string()) {
+        // The words of a name depend on its case, which the equality of identifiers ignores.
+        let name = id.to_string();
+        if !self.checked.borrow().contains(&name) {
+            let _ = self.checked.borrow_mut().insert(name.clone());
+            for word in terms::split_words(&name) {
                 if terms::is_unwelcome_term(&word) {
                     self.issues.push(match in_shape {
                         None => ActionIssue::warning(
-- 
2.43.0


From b89829e183db86290b1cdc1871fee829485cc7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 16/62] fix: merging equal shapes keeps the traits applied to
 the members of both

---
 atelier-core/src/model/mod.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index 3fa2bfa..01f85ba 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -233,6 +233,7 @@ impl Model {
                 (false, false) => {
                     if existing.equal_without_traits(&shape) {
                         copy_traits(existing, &shape)?;
+                        copy_member_traits(existing, &shape)?;
                     } else {
                         error!("Model::add_shape {:?} != {:?}", existing, shape);
                         return Err(ErrorKind::MergeShapeConflict(existing.id().clone()).into());
@@ -309,6 +310,30 @@ fn copy_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> Mode
     Ok(())
 }
 
+/// Merge the traits applied to the members of `from_shape` into those of an equal `to_shape`.
+fn copy_member_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> ModelResult<()> {
+    match (to_shape.body_mut(), from_shape.body()) {
+        (ShapeKind::List(to), ShapeKind::List(from))
+        | (ShapeKind::Set(to), ShapeKind::Set(from)) => {
+            to.member.append_traits(from.member.traits())?;
+        }
+        (ShapeKind::Map(to), ShapeKind::Map(from)) => {
+            to.key.append_traits(from.key.traits())?;
+            to.value.append_traits(from.value.traits())?;
+        }
+        (ShapeKind::Structure(to), ShapeKind::Structure(from))
+        | (ShapeKind::Union(to), ShapeKind::Union(from)) => {
+            for (name, member) in to.members.iter_mut() {
+                if let Some(from) = from.member(name) {
+                    member.append_traits(from.traits())?;
+                }
+            }
+        }
+        _ => {}
+    }
+    Ok(())
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From b6d646c633a3ffde87a77248b5b8f37026b398f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 17/62] fix: length and range refuse sizes an integer value
 cannot hold

---
 atelier-core/src/builder/traits.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/builder/traits.rs b/atelier-core/src/builder/traits.rs
index 34b9c96..8238f2b 100644
--- a/atelier-core/src/builder/traits.rs
+++ b/atelier-core/src/builder/traits.rs
@@ -12,6 +12,7 @@ use crate::prelude::{
     TRAIT_TRAIT, TRAIT_UNIQUEITEMS, TRAIT_UNSTABLE,
 };
 use crate::syntax::SHAPE_ID_ABSOLUTE_SEPARATOR;
+use std::convert::TryFrom;
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 
@@ -89,10 +90,10 @@ pub fn length(min: Option<usize>, max: Option<usize>) -> TraitBuilder {
     assert!(min.is_some() || max.is_some());
     let mut values = ObjectBuilder::default();
     if let Some(min) = min {
-        let _ = values.integer("min", min as i64);
+        let _ = values.integer("min", integer_value(min));
     }
     if let Some(max) = max {
-        let _ = values.integer("max", max as i64);
+        let _ = values.integer("max", integer_value(max));
     }
     TraitBuilder::with_value(&prelude_name(TRAIT_LENGTH), values.into())
 }
@@ -151,10 +152,10 @@ pub fn range(min: Option<usize>, max: Option<usize>) -> TraitBuilder {
     assert!(min.is_some() || max.is_some());
     let mut values = ObjectBuilder::default();
     if let Some(min) = min {
-        let _ = values.integer("min", min as i64);
+        let _ = values.integer("min", integer_value(min));
     }
     if let Some(max) = max {
-        let _ = values.integer("max", max as i64);
+        let _ = values.integer("max", integer_value(max));
     }
     TraitBuilder::with_value(&prelude_name(TRAIT_RANGE), values.into())
 }
@@ -350,6 +351,12 @@ impl TraitBuilder {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+/// The largest integer a `Value` can hold is `i64::MAX`; anything more would wrap to a negative number.
+#[inline]
+fn integer_value(value: usize) -> i64 {
+    i64::try_from(value).expect("value out of range for an integer")
+}
+
 #[inline]
 fn prelude_name(name: &str) -> String {
     format!(
-- 
2.43.0


From e02d4e9528846eb5b12be9d67c474e8d095187a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 18/62] fix: apply finds shapes and members added under a
 relative name

---
 atelier-core/src/builder/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 5e08718..b06fef1 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -314,17 +314,27 @@ impl ModelBuilder {
         }
     }
 
+    /// A shape may have been added to the builder under its absolute name or, if it is in the default
+    /// namespace, its relative name.
+    fn shape_builder_mut(&mut self, shape_id: &ShapeID) -> Option<&mut TopLevelShapeBuilder> {
+        let mut key = ShapeName::from(shape_id.clone());
+        if !self.shapes.contains_key(&key) && shape_id.namespace() == &self.default_namespace {
+            key = shape_id.shape_name().clone().into();
+        }
+        self.shapes.get_mut(&key)
+    }
+
     fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
                 if let Some(member_name) = shape_id.member_name() {
-                    let parent_shape = ShapeName::from(shape_id.shape_only());
-                    if let Some(shape) = self.shapes.get_mut(&parent_shape) {
+                    let parent_shape = shape_id.shape_only();
+                    if let Some(shape) = self.shape_builder_mut(&parent_shape) {
                         apply_to_member(shape, member_name, a_trait);
                     } else {
                         panic!("No shape named {} for member {}", parent_shape, member_name);
                     }
-                } else if let Some(shape) = self.shapes.get_mut(&shape_name) {
+                } else if let Some(shape) = self.shape_builder_mut(shape_id) {
                     apply_to_shape(shape, a_trait);
                 } else {
                     let mut builder = ReferenceBuilder::from(shape_id.clone());
-- 
2.43.0


From e78f5949d113b2165d1e47d103e4909bbe54f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 19/62] fix: a trait given twice to a builder follows trait
 conflict resolution

---
 atelier-core/src/builder/mod.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index b06fef1..f2dcd67 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,7 +19,7 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
+    merge_traits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
     TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
@@ -31,7 +31,6 @@ use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::iter::FromIterator;
 use std::str::FromStr;
 pub use values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
 
@@ -710,21 +709,20 @@ impl ModelBuilder {
         builders: &[TraitBuilder],
         references: &mut HashSet<ShapeID>,
     ) -> Result<HashMap<ShapeID, Option<Value>>, Error> {
-        let pairs: Result<Vec<(ShapeID, Option<Value>)>, Error> = builders
-            .iter()
-            .cloned()
-            .map(|builder| {
-                let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
-                if new_reference {
-                    let _ = references.insert(shape_id.clone());
-                }
-                Ok((shape_id, builder.value))
-            })
-            .collect();
-        match pairs {
-            Ok(pairs) => Ok(HashMap::from_iter(pairs)),
-            Err(err) => Err(err),
-        }
+        let mut traits: HashMap<ShapeID, Option<Value>> = Default::default();
+        for builder in builders {
+            let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
+            if new_reference {
+                let _ = references.insert(shape_id.clone());
+            }
+            // The same trait may be given more than once, subject to trait conflict resolution.
+            let value = match traits.get(&shape_id) {
+                Some(value) => merge_traits(&shape_id, value, &builder.value)?,
+                None => builder.value.clone(),
+            };
+            let _ = traits.insert(shape_id, value);
+        }
+        Ok(traits)
     }
 }
 
-- 
2.43.0


From 9fd20a1119acf9b1dca01091ae312bc2782cfd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 20/62] fix: building a model returns the conflicts between its
 shapes

---
 atelier-core/src/builder/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index f2dcd67..1650d2e 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -85,14 +85,14 @@ impl TryFrom<&mut ModelBuilder> for Model {
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
         let mut model = Model::new(builder.smithy_version);
         for (k, v) in builder.metadata.iter() {
-            let _ = model.add_metadata(k.clone(), v.clone());
+            model.add_metadata(k.clone(), v.clone())?;
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
         for shape in builder.shapes.values() {
-            let _ = model.add_shape(builder.make_shape(&shape, &mut unresolved)?);
+            model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
-            let _ = model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved));
+            model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
         Ok(model)
     }
-- 
2.43.0


From b718fadfdbd9be07c58bbf4ab828316b060a8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 21/62] fix: a shape defined under its absolute name is found
 before the prelude

---
 atelier-core/src/builder/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 1650d2e..652f410 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -283,7 +283,7 @@ impl ModelBuilder {
                         ))
                     }
                     0 => {
-                        if self.shapes.contains_key(shape_name) {
+                        if self.defines_local(local) {
                             // 2. a shape is defined in the same namespace as the shape with the same name
                             trace!(
                                 "SUCCESS: shape found in same namespace as shape with same name"
@@ -313,6 +313,15 @@ impl ModelBuilder {
         }
     }
 
+    /// Is a shape of this name defined in the default namespace, under its relative or absolute name?
+    fn defines_local(&self, local: &Identifier) -> bool {
+        self.shapes.contains_key(&local.clone().into())
+            || matches!(
+                self.shapes.get(&self.default_namespace.make_shape(local.clone()).into()),
+                Some(shape) if !matches!(shape, TopLevelShapeBuilder::Reference(_))
+            )
+    }
+
     /// A shape may have been added to the builder under its absolute name or, if it is in the default
     /// namespace, its relative name.
     fn shape_builder_mut(&mut self, shape_id: &ShapeID) -> Option<&mut TopLevelShapeBuilder> {
-- 
2.43.0


From 717c59765552d869cab62b25eca9aa894088742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 22/62] fix: applying a trait to a shape does not import its
 name

---
 atelier-core/src/builder/mod.rs    | 19 ++++++++++++++-----
 atelier-core/src/builder/shapes.rs | 10 ++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 652f410..0f7bd14 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -191,6 +191,15 @@ impl ModelBuilder {
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
     pub fn reference(&mut self, builder: ReferenceBuilder) -> &mut Self {
+        let mut builder = builder;
+        if let Some(TopLevelShapeBuilder::Reference(previous)) = self.shapes.get(&builder.shape_id)
+        {
+            // Traits may have been applied to this shape already.
+            builder.imported |= previous.imported;
+            builder
+                .applied_traits
+                .extend(previous.applied_traits.iter().cloned());
+        }
         let shape_id = &builder.shape_id;
         self.insert(shape_id.clone(), builder.into())
     }
@@ -219,10 +228,10 @@ impl ModelBuilder {
         self
     }
 
-    fn reference_names(&self) -> impl Iterator<Item = &ShapeName> {
+    fn imported_names(&self) -> impl Iterator<Item = &ShapeName> {
         self.shapes
             .iter()
-            .filter(|(_, builder)| matches!(builder, TopLevelShapeBuilder::Reference(_)))
+            .filter(|(_, builder)| matches!(builder, TopLevelShapeBuilder::Reference(reference) if reference.imported))
             .map(|(id, _)| id)
     }
 
@@ -265,7 +274,7 @@ impl ModelBuilder {
             ShapeName::Local(local) => {
                 trace!("Local Identifier: proceeding with resolution...");
                 let references: Vec<&ShapeName> = self
-                    .reference_names()
+                    .imported_names()
                     .filter(|shape_name| shape_name.shape_name() == local)
                     .collect();
                 debug!(
@@ -345,7 +354,7 @@ impl ModelBuilder {
                 } else if let Some(shape) = self.shape_builder_mut(shape_id) {
                     apply_to_shape(shape, a_trait);
                 } else {
-                    let mut builder = ReferenceBuilder::from(shape_id.clone());
+                    let mut builder = ReferenceBuilder::not_imported(shape_id.clone());
                     let _ = builder.apply_trait(a_trait);
                     let _ = self.reference(builder);
                 }
@@ -358,7 +367,7 @@ impl ModelBuilder {
                     .resolve_shape_name(&local.clone().into(), false)
                     .unwrap();
                 if new_reference {
-                    let _ = self.reference(ReferenceBuilder::from(shape_id.clone()));
+                    let _ = self.reference(ReferenceBuilder::not_imported(shape_id.clone()));
                 }
                 self.apply_to(&shape_id.into(), a_trait)
             }
diff --git a/atelier-core/src/builder/shapes.rs b/atelier-core/src/builder/shapes.rs
index ab4729d..0fdc964 100644
--- a/atelier-core/src/builder/shapes.rs
+++ b/atelier-core/src/builder/shapes.rs
@@ -152,6 +152,7 @@ pub struct ResourceBuilder {
 pub struct ReferenceBuilder {
     pub(super) shape_id: ShapeName,
     pub(super) applied_traits: Vec<TraitBuilder>,
+    pub(super) imported: bool,
 }
 
 /// Builder for `MemberShape` shapes.
@@ -747,6 +748,7 @@ impl From<ShapeID> for ReferenceBuilder {
         Self {
             shape_id: ShapeName::from(shape_id),
             applied_traits: Default::default(),
+            imported: true,
         }
     }
 }
@@ -760,6 +762,14 @@ impl ReferenceBuilder {
         let shape_id = ShapeID::from_str(shape_name).unwrap();
         Self::from(shape_id)
     }
+
+    /// A reference that only carries the traits applied to a shape, it does not import the name.
+    pub(super) fn not_imported(shape_id: ShapeID) -> Self {
+        Self {
+            imported: false,
+            ..Self::from(shape_id)
+        }
+    }
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 113c0086d054e0c8f00b03834f59da9ddbb7a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 23/62] fix: register_all registers the MIME type of the file
 type

---
 atelier-assembler/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 674a4bc..4e22ad1 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -243,9 +243,7 @@ impl FileTypeRegistry {
     ///
     pub fn register_all(&mut self, file_type: Rc<FileType>, extensions: &[&str]) {
         for extension in extensions {
-            let _ = self
-                .by_extension
-                .insert(extension.to_lowercase(), file_type.clone());
+            self.register(file_type.clone(), extension);
         }
     }
 
-- 
2.43.0


From 26f1d717a19273e47d20bcd1f5c86a4d0a8fda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 24/62] fix: assemble each file once and in a stable order

---
 atelier-assembler/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 4e22ad1..4f4075e 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -406,6 +406,10 @@ impl ModelAssembler {
         for path in &self.paths {
             self.expand_path(path, &mut results);
         }
+        // the same file may be found more than once, and neither the set of paths nor the
+        // entries of a directory are ordered.
+        results.sort();
+        results.dedup();
         results
     }
 
-- 
2.43.0


From 2ff5808b383ad8e16dd6638ced7d692d819a6144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 25/62] fix: files and directories that cannot be read are
 errors of the assembler

---
 atelier-assembler/src/lib.rs | 39 +++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 4f4075e..d16c8d9 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -309,7 +309,7 @@ impl TryFrom<&mut ModelAssembler> for Model {
             Ok(Model::default())
         } else {
             let models: std::result::Result<Vec<Model>, Self::Error> = value
-                .expand_file_paths()
+                .try_expand_file_paths()?
                 .iter()
                 .map(|file_name| value.read_model(&file_name))
                 .collect();
@@ -404,13 +404,11 @@ impl ModelAssembler {
         info!("ModelAssembler::expand_file_paths()");
         let mut results = Vec::default();
         for path in &self.paths {
-            self.expand_path(path, &mut results);
+            if let Err(err) = self.expand_path(path, &mut results) {
+                error!("ModelAssembler::expand_file_paths - {:?}: {}", path, err);
+            }
         }
-        // the same file may be found more than once, and neither the set of paths nor the
-        // entries of a directory are ordered.
-        results.sort();
-        results.dedup();
-        results
+        Self::sort_paths(results)
     }
 
     // --------------------------------------------------------------------------------------------
@@ -422,8 +420,25 @@ impl ModelAssembler {
         mut_self
     }
 
+    fn try_expand_file_paths(&self) -> Result<Vec<PathBuf>> {
+        let mut results = Vec::default();
+        for path in &self.paths {
+            self.expand_path(path, &mut results)?;
+        }
+        Ok(Self::sort_paths(results))
+    }
+
+    /// The same file may be found more than once, and neither the set of paths nor the entries of
+    /// a directory are ordered.
+    fn sort_paths(paths: Vec<PathBuf>) -> Vec<PathBuf> {
+        let mut paths = paths;
+        paths.sort();
+        paths.dedup();
+        paths
+    }
+
     #[allow(clippy::ptr_arg)]
-    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) {
+    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) -> Result<()> {
         info!("ModelAssembler::expand_path({:?})", path);
         if path.is_file() {
             if let Some(extension) = path.extension() {
@@ -435,11 +450,11 @@ impl ModelAssembler {
             }
         } else if path.is_dir() {
             debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
-            for entry in read_dir(path).unwrap() {
-                let entry = entry.unwrap();
-                self.expand_path(&entry.path(), results);
+            for entry in read_dir(path)? {
+                self.expand_path(&entry?.path(), results)?;
             }
         }
+        Ok(())
     }
 
     fn read_model(&self, path: &Path) -> Result<Model> {
@@ -447,7 +462,7 @@ impl ModelAssembler {
         if let Some(extension) = path.extension() {
             let extension = extension.to_string_lossy().to_lowercase();
             if let Some(file_type) = self.file_types.get(extension.as_ref()) {
-                let mut file = File::open(path).unwrap();
+                let mut file = File::open(path)?;
                 Ok(file_type.reader()(&mut file)?)
             } else {
                 error!("ModelAssembler::read_model - not a known extension");
-- 
2.43.0


From 503d6fa9f32a51f7d447b5f08e94d972ec986955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 26/62] fix: an IRI with an authority, query or fragment is not
 a shape URN

---
 atelier-rdf/src/urn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-rdf/src/urn.rs b/atelier-rdf/src/urn.rs
index 83cf20d..f6899fb 100644
--- a/atelier-rdf/src/urn.rs
+++ b/atelier-rdf/src/urn.rs
@@ -65,7 +65,9 @@ pub fn is_shape_iri(iri: IRIRef) -> bool {
 /// conform to the format described in the module documentation.
 ///
 pub fn iri_to_shape(iri: IRIRef) -> Result<ShapeID, String> {
-    if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
+    if iri.has_authority() || iri.has_query() || iri.has_fragment() {
+        Err(String::from("Smithy URN contains unexpected components"))
+    } else if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
         let path = iri.path().to_string();
         if let Some(path) = path.strip_prefix(URN_NID) {
             if path
-- 
2.43.0


From 3243352b0a75661b9107bc0a73da273d65df072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:25 +0000
Subject: [PATCH 27/62] fix: properties of unexpected kinds are errors of the
 Smithy reader, not panics

---
 atelier-smithy/src/parser/smithy.rs | 58 +++++++++++++++++++----------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 232a20a..230dae8 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -2,6 +2,7 @@
 
 use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
+use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
     ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
@@ -538,17 +539,18 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
     entry!("parse_service_statement", input_pair);
     let (id, object) = parse_id_and_object(input_pair)?;
     if let NodeValue::Object(object) = object {
-        let mut service = ServiceBuilder::new(
-            &id,
-            object.get(MEMBER_VERSION).unwrap().as_string().unwrap(),
-        );
+        let version = match object.get(MEMBER_VERSION) {
+            Some(NodeValue::String(version)) if !version.is_empty() => version,
+            _ => return Err(ErrorKind::InvalidVersionNumber(None).into()),
+        };
+        let mut service = ServiceBuilder::new(&id, version);
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.operation(&value.as_string().unwrap());
+                            let _ = service.operation(parse_shape_name("parse_service_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -559,7 +561,7 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.resource(&value.as_string().unwrap());
+                            let _ = service.resource(parse_shape_name("parse_service_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -590,15 +592,15 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_INPUT => {
-                    let _ = operation.input(&value.as_string().unwrap());
+                    let _ = operation.input(parse_shape_name("parse_operation_statement", &value)?);
                 }
                 MEMBER_OUTPUT => {
-                    let _ = operation.output(&value.as_string().unwrap());
+                    let _ = operation.output(parse_shape_name("parse_operation_statement", &value)?);
                 }
                 MEMBER_ERRORS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = operation.error(&value.as_string().unwrap());
+                            let _ = operation.error(parse_shape_name("parse_operation_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_operation_statement")
@@ -631,7 +633,15 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            let _ = resource.identifier(&id, &target.as_string().unwrap());
+                            if !Identifier::is_valid(&id) {
+                                return ParserError::unreachable("parse_resource_statement")
+                                    .context(&id)
+                                    .into();
+                            }
+                            let _ = resource.identifier(
+                                &id,
+                                parse_shape_name("parse_resource_statement", &target)?,
+                            );
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -640,27 +650,27 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                     }
                 }
                 MEMBER_CREATE => {
-                    let _ = resource.create(&value.as_string().unwrap());
+                    let _ = resource.create(parse_shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_PUT => {
-                    let _ = resource.put(&value.as_string().unwrap());
+                    let _ = resource.put(parse_shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_READ => {
-                    let _ = resource.read(&value.as_string().unwrap());
+                    let _ = resource.read(parse_shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_UPDATE => {
-                    let _ = resource.update(&value.as_string().unwrap());
+                    let _ = resource.update(parse_shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_DELETE => {
-                    let _ = resource.delete(&value.as_string().unwrap());
+                    let _ = resource.delete(parse_shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_LIST => {
-                    let _ = resource.list(&value.as_string().unwrap());
+                    let _ = resource.list(parse_shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.operation(&value.as_string().unwrap());
+                            let _ = resource.operation(parse_shape_name("parse_resource_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -671,7 +681,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_COLLECTION_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.collection_operation(&value.as_string().unwrap());
+                            let _ = resource.collection_operation(parse_shape_name("parse_resource_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -682,7 +692,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.resource(&value.as_string().unwrap());
+                            let _ = resource.resource(parse_shape_name("parse_resource_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -724,6 +734,16 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
+///
+/// The name of a shape, as the value of a property.
+///
+fn parse_shape_name<'a>(fn_name: &str, value: &'a NodeValue) -> ModelResult<&'a str> {
+    match value {
+        NodeValue::String(name) if ShapeName::from_str(name).is_ok() => Ok(name),
+        _ => ParserError::unreachable(fn_name).context(value).into(),
+    }
+}
+
 fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ReferenceBuilder> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
-- 
2.43.0


From cc0582539fdc91a747bde849b80c9015947db03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 28/62] fix: selector comparators >= and <= are recognized

---
 atelier-smithy/src/parser/selector.rs | 1 -
 atelier-smithy/src/selector.pest      | 8 ++++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 45efa16..f5069db 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -37,7 +37,6 @@ pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     match top_pair.as_rule() {
         Rule::input => {
             let inner = top_pair.into_inner().next().unwrap();
-            println!("{:#?}", inner);
             trace!("{:#?}", inner);
             if inner.as_rule() == Rule::selector {
                 parse_a_selector(inner)
diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index de20b25..eabdc8e 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -93,10 +93,10 @@ comparator_string_in = { "*=" }
 comparator_string_exist = { "?=" }
 
 selector_numeric_comparator =
-    { comparator_number_gt
-    | comparator_number_gte
-    | comparator_number_lt
-    | comparator_number_lte }
+    { comparator_number_gte
+    | comparator_number_gt
+    | comparator_number_lte
+    | comparator_number_lt }
 
 comparator_number_gt = { ">" }
 
-- 
2.43.0


From c2e4ce452b1a205a4689f624046a0a927d59bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 29/62] fix: selector numbers with an exponent are floats, and
 those out of range are errors

---
 atelier-smithy/src/parser/selector.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index f5069db..4cf3a00 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -222,12 +222,20 @@ fn parse_selector_value(input_pair: Pair<'_, Rule>) -> ModelResult<Value> {
         }
         Rule::number => {
             let number = inner.as_str();
-            if number.contains('.') {
-                Ok(Value::Number(Number::Float(f64::from_str(number).unwrap())))
+            let value = if number.contains(['.', 'e', 'E']) {
+                f64::from_str(number)
+                    .ok()
+                    .filter(|v| v.is_finite())
+                    .map(Number::Float)
             } else {
-                Ok(Value::Number(Number::Integer(
-                    i64::from_str(number).unwrap(),
-                )))
+                i64::from_str(number).ok().map(Number::Integer)
+            };
+            match value {
+                Some(value) => Ok(Value::Number(value)),
+                None => ParserError::new("parse_selector_value")
+                    .expecting("number in range")
+                    .context(&number)
+                    .into(),
             }
         }
         Rule::root_shape_id => {
-- 
2.43.0


From d056f8334a138ebd78e934567496792a67b6d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 30/62] fix: IDL numbers with an exponent are floats

---
 atelier-smithy/src/parser/smithy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 230dae8..4971445 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -775,7 +775,7 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_array => parse_node_array(inner)?,
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
-            if inner.as_str().contains('.') {
+            if inner.as_str().contains(['.', 'e', 'E']) {
                 NodeValue::Number(Number::Float(
                     inner.as_str().parse().chain_err(|| "number format error")?,
                 ))
-- 
2.43.0


From c1107d02dd87beb7c151093934e2978699f0ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 31/62] fix: a carriage return is white space in selectors

---
 atelier-smithy/src/selector.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index eabdc8e..9988ff1 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -216,4 +216,4 @@ zero =
 // Allows default whitespace handling
 // ------------------------------------------------------------------------------------------------
 
-WHITESPACE = _{ " " | "\t" | "\n" }
\ No newline at end of file
+WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
\ No newline at end of file
-- 
2.43.0


From 072a15e6d1497e6f5967d29b63a576eea1f56fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 32/62] fix: identifiers may start with several underscores

---
 atelier-smithy/src/selector.pest | 3 +--
 atelier-smithy/src/smithy.pest   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index 9988ff1..4c19dd6 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -173,8 +173,7 @@ selector_variable_get =
 // ------------------------------------------------------------------------------------------------
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 namespace =
     @{ identifier ~ ("." ~ identifier)* }
diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2c844c6..d58d61a 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -41,8 +41,7 @@ namespace =
     @{ identifier ~ ("." ~ identifier)* }
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 shape_id_member =
     { "$" ~ identifier }
-- 
2.43.0


From feaba42e0bc8b2b984cbc8724f45d0535d621b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 33/62] fix: selector values are written as the text they are
 read from

---
 atelier-core/src/model/selector/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index d40634e..da97788 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -596,7 +596,9 @@ impl Display for Value {
             f,
             "{}",
             match self {
+                Value::Text(v) if v.contains('"') => format!("'{}'", v),
                 Value::Text(v) => format!("\"{}\"", v),
+                Value::Number(Number::Float(v)) => format!("{:?}", v),
                 Value::Number(v) => v.to_string(),
                 Value::RootShapeIdentifier(v) => v.to_string(),
                 Value::AbsoluteRootShapeIdentifier(v) => v.to_string(),
-- 
2.43.0


From edbd2cd022dab2c9859d1b65df563855a5be6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 34/62] fix: text of the IDL may contain any Unicode character

---
 atelier-smithy/src/smithy.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index d58d61a..e8c48bb 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -11,13 +11,13 @@ br =
     _{ ws ~ EOI? }
 
 line_comment =
-    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFF}')* ~ NEWLINE }
+    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ NEWLINE }
 
 documentation_comment =
     _{ ws ~ "///" ~ documentation_text ~ NEWLINE }
 
 documentation_text =
-    { ("\t" | '\u{20}'..'\u{10FFF}')* }
+    { ("\t" | '\u{20}'..'\u{10FFFF}')* }
 
 control_section =
     { control_statement* }
@@ -121,7 +121,7 @@ quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
 
 quoted_chars =
-    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 escaped_char =
     {escape ~ (escape | "'" | DQUOTE | "b" | "f" | "n" | "r" | "t" | "/" | unicode_escape) }
@@ -130,7 +130,7 @@ unicode_escape =
     { "u" ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT }
 
 preserved_double =
-    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}') }
+    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}') }
 
 escape =
     { "\\" }
@@ -142,7 +142,7 @@ text_block =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
 
 block_quoted_chars =
-    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 DQUOTE =
     _{ "\"" }
-- 
2.43.0


From 19f893831a96f6e9a6fbe13ed6be9c6407b86f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 35/62] fix: shape IDs in values may start with true, false or
 null

---
 atelier-smithy/src/smithy.pest | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index e8c48bb..bbe423e 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -111,11 +111,14 @@ zero =
 node_keywords =
     _{ kw_true | kw_false | kw_null }
 
-kw_true = { "true" }
+kw_true = { "true" ~ kw_end }
 
-kw_false = { "false" }
+kw_false = { "false" ~ kw_end }
 
-kw_null = { "null" }
+kw_null = { "null" ~ kw_end }
+
+kw_end =
+    _{ !(ASCII_ALPHANUMERIC | "_" | "." | "#" | "$") }
 
 quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
-- 
2.43.0


From c78d515e5a9ad133602cb529bce6d7e702dfdd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 36/62] fix: a line comment may end the IDL

---
 atelier-smithy/src/smithy.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index bbe423e..9a7306d 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -11,7 +11,7 @@ br =
     _{ ws ~ EOI? }
 
 line_comment =
-    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ NEWLINE }
+    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ (NEWLINE | &EOI) }
 
 documentation_comment =
     _{ ws ~ "///" ~ documentation_text ~ NEWLINE }
-- 
2.43.0


From 63c50e3471511fbef222e3b9c6cc798b1890cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 37/62] fix: the version and metadata of IDL without shapes are
 kept

---
 atelier-smithy/src/parser/smithy.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 4971445..f6c7bea 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -86,10 +86,16 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 parse_metadata_section
             );
             let builder = next_pair_into!("parse_idl", inner, Rule::shape_section, |item| {
-                parse_shape_section(item, version)
+                parse_shape_section(item, version.clone())
             });
             match builder {
-                None => Ok(Model::default()),
+                None => {
+                    let mut model = Model::new(version);
+                    for (key, value) in meta_data {
+                        model.add_metadata(key, value)?;
+                    }
+                    Ok(model)
+                }
                 Some(mut builder) => builder.meta_data_from(meta_data).try_into(),
             }
         }
-- 
2.43.0


From 5a102a9ffb428f6e2bbb5992fb5488e24eb1d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 38/62] fix: the Smithy reader applies the traits of apply
 statements

---
 atelier-core/src/builder/mod.rs     | 39 +++++++++++++++++++++--------
 atelier-smithy/src/parser/smithy.rs | 31 +++++++++++------------
 2 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 0f7bd14..bb18c6a 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -185,7 +185,23 @@ impl ModelBuilder {
     /// a new reference builder is created and the trait applied to it. This is similar to the
     /// way the `apply` statement works in the Smithy IDL.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
-        let shape_name = ShapeName::from_str(shape).unwrap();
+        if let Err(e) = self.try_apply(shape, a_trait) {
+            panic!("{}", e);
+        }
+        self
+    }
+
+    /// Applies a trait, as [`apply`](#method.apply) does, but fails where there is no such shape or
+    /// member to apply it to.
+    pub fn try_apply(&mut self, shape: &str, a_trait: TraitBuilder) -> Result<(), Error> {
+        let shape_name = match shape.split_once('$') {
+            Some((local, member)) if Identifier::is_valid(local) => {
+                // A member of a shape that has a relative name.
+                let (shape_id, _) = self.resolve_shape_name(&ShapeName::from_str(local)?, false)?;
+                shape_id.make_member(member.parse()?).into()
+            }
+            _ => ShapeName::from_str(shape)?,
+        };
         self.apply_to(&shape_name, a_trait)
     }
 
@@ -341,15 +357,15 @@ impl ModelBuilder {
         self.shapes.get_mut(&key)
     }
 
-    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
+    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> Result<(), Error> {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
                 if let Some(member_name) = shape_id.member_name() {
                     let parent_shape = shape_id.shape_only();
                     if let Some(shape) = self.shape_builder_mut(&parent_shape) {
-                        apply_to_member(shape, member_name, a_trait);
+                        apply_to_member(shape, member_name, a_trait)?;
                     } else {
-                        panic!("No shape named {} for member {}", parent_shape, member_name);
+                        return Err(ErrorKind::UnknownShape(parent_shape.to_string()).into());
                     }
                 } else if let Some(shape) = self.shape_builder_mut(shape_id) {
                     apply_to_shape(shape, a_trait);
@@ -358,14 +374,13 @@ impl ModelBuilder {
                     let _ = builder.apply_trait(a_trait);
                     let _ = self.reference(builder);
                 }
-                self
+                Ok(())
             }
             ShapeName::Local(local) => {
                 // This is disallowed in the Smithy IDL which requires apply statements to take
                 // qualified names.
-                let (shape_id, new_reference) = self
-                    .resolve_shape_name(&local.clone().into(), false)
-                    .unwrap();
+                let (shape_id, new_reference) =
+                    self.resolve_shape_name(&local.clone().into(), false)?;
                 if new_reference {
                     let _ = self.reference(ReferenceBuilder::not_imported(shape_id.clone()));
                 }
@@ -752,7 +767,7 @@ fn apply_to_member(
     shape: &mut TopLevelShapeBuilder,
     member_name: &Identifier,
     a_trait: TraitBuilder,
-) {
+) -> Result<(), Error> {
     let ok = match shape {
         TopLevelShapeBuilder::List(shape) => {
             if member_name.to_string() == MEMBER_MEMBER {
@@ -807,8 +822,10 @@ fn apply_to_member(
         }
         _ => false,
     };
-    if !ok {
-        panic!("Shape does not have a traitable member {}", member_name);
+    if ok {
+        Ok(())
+    } else {
+        Err(ErrorKind::UnknownMember(member_name.to_string()).into())
     }
 }
 
diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index f6c7bea..bd793f3 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -5,7 +5,7 @@ use crate::REPRESENTATION_NAME;
 use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
-    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
+    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder,
     ResourceBuilder, ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
 };
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
@@ -92,7 +92,7 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 None => {
                     let mut model = Model::new(version);
                     for (key, value) in meta_data {
-                        model.add_metadata(key, value)?;
+                        let _ = model.add_metadata(key, value)?;
                     }
                     Ok(model)
                 }
@@ -194,15 +194,23 @@ fn parse_shape_statements(
     builder: &mut ModelBuilder,
 ) -> ModelResult<()> {
     entry!("parse_shape_statements", input_pair);
+    let mut applied: Vec<(String, TraitBuilder)> = Default::default();
     for shape_statement in input_pair.into_inner() {
         match shape_statement.as_rule() {
             Rule::shape_statement => {
                 parse_shape_statement(shape_statement, builder)?;
             }
+            Rule::apply_statement => {
+                applied.push(parse_apply_statement(shape_statement)?);
+            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statements", shape_statement),
         }
     }
+    // Traits may be applied to shapes that are defined later.
+    for (id, a_trait) in applied {
+        builder.try_apply(&id, a_trait)?;
+    }
     Ok(())
 }
 
@@ -266,10 +274,6 @@ fn parse_shape_statement(
                 apply_traits(&mut shape, &documentation, &traits);
                 let _ = builder.resource(shape);
             }
-            Rule::apply_statement => {
-                let shape = parse_apply_statement(shape_statement)?;
-                let _ = builder.reference(shape);
-            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statement", shape_statement),
         }
@@ -750,27 +754,22 @@ fn parse_shape_name<'a>(fn_name: &str, value: &'a NodeValue) -> ModelResult<&'a
     }
 }
 
-fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ReferenceBuilder> {
+fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
     let mut a_trait: Option<TraitBuilder> = None;
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::identifier => {
+            Rule::shape_id => {
                 id = Some(inner.as_str().to_string());
             }
             Rule::a_trait => a_trait = Some(parse_a_trait(inner)?),
             _ => unexpected!("parse_apply_statement", inner),
         }
     }
-    if let Some(id) = id {
-        let mut reference = ReferenceBuilder::new(&id);
-        if let Some(a_trait) = a_trait {
-            let _ = reference.apply_trait(a_trait);
-        }
-        Ok(reference)
-    } else {
-        ParserError::unreachable("parse_apply_statement").into()
+    match (id, a_trait) {
+        (Some(id), Some(a_trait)) => Ok((id, a_trait)),
+        _ => ParserError::unreachable("parse_apply_statement").into(),
     }
 }
 
-- 
2.43.0


From 34e33626a824fec4d0a84ca4e276784c91728994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 39/62] fix: the Smithy reader accepts the renames of a service

---
 atelier-smithy/src/parser/smithy.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index bd793f3..f553ca0 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -11,11 +11,11 @@ use atelier_core::builder::{
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
-use atelier_core::model::{Identifier, Model};
+use atelier_core::model::{Identifier, Model, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
 };
 use atelier_core::Version;
 use pest::error::Error as PestError;
@@ -579,6 +579,31 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                             .into();
                     }
                 }
+                MEMBER_RENAME => {
+                    if let NodeValue::Object(renames) = value {
+                        for (key, local_name) in renames {
+                            // Keys that are not identifiers are quoted.
+                            let shape_id = key.trim_matches('"');
+                            match local_name {
+                                NodeValue::String(local_name)
+                                    if ShapeID::from_str(shape_id).is_ok()
+                                        && Identifier::is_valid(&local_name) =>
+                                {
+                                    let _ = service.rename(shape_id, &local_name);
+                                }
+                                _ => {
+                                    return ParserError::unreachable("parse_service_statement")
+                                        .context(&shape_id)
+                                        .into()
+                                }
+                            }
+                        }
+                    } else {
+                        return ParserError::unreachable("parse_service_statement")
+                            .context(&value)
+                            .into();
+                    }
+                }
                 _ => {
                     return ParserError::unreachable("parse_service_statement")
                         .context(&key)
-- 
2.43.0


From 35a9eddc5dab792de4678a42c4fbe1c795c3823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:40 +0000
Subject: [PATCH 40/62] fix: quoted property and metadata keys of the IDL are
 read without their quotes

---
 atelier-smithy/src/parser/smithy.rs | 33 ++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index f553ca0..abf1788 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -113,7 +113,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::control_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted(&key).to_string(), value);
     }
     Ok(map)
 }
@@ -128,7 +128,7 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted(&key).to_string(), value);
     }
     Ok(map)
 }
@@ -549,13 +549,17 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
     entry!("parse_service_statement", input_pair);
     let (id, object) = parse_id_and_object(input_pair)?;
     if let NodeValue::Object(object) = object {
-        let version = match object.get(MEMBER_VERSION) {
+        let version = object
+            .iter()
+            .find(|(key, _)| unquoted(key) == MEMBER_VERSION)
+            .map(|(_, version)| version);
+        let version = match version {
             Some(NodeValue::String(version)) if !version.is_empty() => version,
             _ => return Err(ErrorKind::InvalidVersionNumber(None).into()),
         };
         let mut service = ServiceBuilder::new(&id, version);
         for (key, value) in object {
-            match key.as_str() {
+            match unquoted(&key) {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
@@ -582,8 +586,7 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RENAME => {
                     if let NodeValue::Object(renames) = value {
                         for (key, local_name) in renames {
-                            // Keys that are not identifiers are quoted.
-                            let shape_id = key.trim_matches('"');
+                            let shape_id = unquoted(&key);
                             match local_name {
                                 NodeValue::String(local_name)
                                     if ShapeID::from_str(shape_id).is_ok()
@@ -625,7 +628,7 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
     if let NodeValue::Object(object) = object {
         let mut operation = OperationBuilder::new(&id);
         for (key, value) in object {
-            match key.as_str() {
+            match unquoted(&key) {
                 MEMBER_INPUT => {
                     let _ = operation.input(parse_shape_name("parse_operation_statement", &value)?);
                 }
@@ -664,17 +667,18 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
     if let NodeValue::Object(object) = object {
         let mut resource = ResourceBuilder::new(&id);
         for (key, value) in object {
-            match key.as_str() {
+            match unquoted(&key) {
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            if !Identifier::is_valid(&id) {
+                            let id = unquoted(&id);
+                            if !Identifier::is_valid(id) {
                                 return ParserError::unreachable("parse_resource_statement")
                                     .context(&id)
                                     .into();
                             }
                             let _ = resource.identifier(
-                                &id,
+                                id,
                                 parse_shape_name("parse_resource_statement", &target)?,
                             );
                         }
@@ -769,6 +773,15 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
+///
+/// The text of a key, without the quotes of one that is quoted.
+///
+fn unquoted(key: &str) -> &str {
+    key.strip_prefix('"')
+        .and_then(|key| key.strip_suffix('"'))
+        .unwrap_or(key)
+}
+
 ///
 /// The name of a shape, as the value of a property.
 ///
-- 
2.43.0


From fb2bcdae1d7934e633809623b88edb440c3385d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 41/62] fix: the Smithy writer writes metadata objects in
 braces, null, whole floats and quoted keys

---
 atelier-smithy/src/writer.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index ba59844..05df967 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -3,8 +3,8 @@ use std::io::Write;
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
-use atelier_core::model::values::Value;
-use atelier_core::model::{HasIdentity, Model, NamespaceID, ShapeID};
+use atelier_core::model::values::{Number, Value};
+use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -77,7 +77,7 @@ impl SmithyWriter {
         if model.has_metadata() {
             for (key, value) in model.metadata() {
                 write!(w, "{} \"{}\" = ", STATEMENT_METADATA, key)?;
-                self.write_value(w, value, true)?;
+                self.write_value(w, value, false)?;
                 writeln!(w)?;
             }
             writeln!(w)?;
@@ -328,7 +328,11 @@ impl SmithyWriter {
                 }
                 let last = if vs.is_empty() { 0 } else { vs.len() - 1 };
                 for (i, (k, v)) in vs.iter().enumerate() {
-                    write!(w, "{}: ", k)?;
+                    if Identifier::is_valid(k) {
+                        write!(w, "{}: ", k)?;
+                    } else {
+                        write!(w, "{:?}: ", k)?;
+                    }
                     self.write_value(w, v, false)?;
                     if i < last {
                         write!(w, ", ")?;
@@ -338,10 +342,11 @@ impl SmithyWriter {
                     write!(w, "}}")?;
                 }
             }
+            Value::Number(Number::Float(v)) => write!(w, "{:?}", v)?,
             Value::Number(v) => write!(w, "{}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
             Value::String(v) => write!(w, "{:?}", v)?,
-            Value::None => {}
+            Value::None => write!(w, "null")?,
         }
         Ok(())
     }
-- 
2.43.0


From 5edc4deebc248f7a6336ead0e427660cd6f6b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 42/62] fix: the Smithy writer writes names that denote the
 same shape when read

---
 atelier-smithy/src/writer.rs | 123 ++++++++++++++++++++++++-----------
 1 file changed, 85 insertions(+), 38 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 05df967..2f85298 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -1,10 +1,12 @@
+use std::collections::HashSet;
 use std::io::Write;
 
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
-use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
+use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind, TopLevelShape};
 use atelier_core::model::values::{Number, Value};
 use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
+use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -61,6 +63,42 @@ impl SmithyWriter {
         }
     }
 
+    fn shape_name(&self, model: &Model, id: &ShapeID) -> String {
+        self.name(model, id, defined_prelude_shapes())
+    }
+
+    ///
+    /// The name of a shape: relative only where a reader will resolve it to the same shape.
+    ///
+    fn name(&self, model: &Model, id: &ShapeID, prelude: &HashSet<&'static str>) -> String {
+        let name = id.shape_name();
+        let is_imported = self
+            .used_shapes(model)
+            .any(|shape| shape.id().shape_name() == name);
+        let is_local = model
+            .shape(&self.namespace.make_shape(name.clone()))
+            .map(|shape| !shape.is_unresolved())
+            .unwrap_or_default();
+        let is_relative = if *id.namespace() == self.namespace {
+            is_local
+        } else {
+            *id.namespace() == self.prelude_namespace
+                && !is_local
+                && prelude.contains(name.to_string().as_str())
+        };
+        if is_relative && !is_imported {
+            name.to_string()
+        } else {
+            id.to_string()
+        }
+    }
+
+    fn used_shapes<'a>(&self, model: &'a Model) -> impl Iterator<Item = &'a TopLevelShape> {
+        model
+            .shapes()
+            .filter(|shape| shape.is_unresolved() && !shape.has_traits())
+    }
+
     fn write_control_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         writeln!(
             w,
@@ -97,10 +135,7 @@ impl SmithyWriter {
     }
 
     fn write_use_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
-        for use_shape in model
-            .shapes()
-            .filter(|shape| shape.is_unresolved() && !shape.has_traits())
-        {
+        for use_shape in self.used_shapes(model) {
             writeln!(w, "{} {}", STATEMENT_USE, use_shape.id())?;
         }
         writeln!(w)?;
@@ -115,7 +150,7 @@ impl SmithyWriter {
         {
             if !shape.body().is_unresolved() {
                 for (id, value) in shape.traits() {
-                    self.write_trait(w, id, value, "")?;
+                    self.write_trait(w, model, id, value, "")?;
                 }
             }
             match shape.body() {
@@ -124,33 +159,48 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, list.member().target())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_MEMBER,
+                        self.shape_name(model, list.member().target())
+                    )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, set.member().target())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_MEMBER,
+                        self.shape_name(model, set.member().target())
+                    )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_KEY, map.key().target().shape_name())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_KEY,
+                        self.shape_name(model, map.key().target())
+                    )?;
                     writeln!(
                         w,
                         "    {}: {}",
                         MEMBER_VALUE,
-                        map.value().target().shape_name()
+                        self.shape_name(model, map.value().target())
                     )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Structure(structured) => {
                     writeln!(w, "{} {} {{", SHAPE_STRUCTURE, shape.id().shape_name())?;
-                    self.write_members(w, structured.members(), "    ")?;
+                    self.write_members(w, model, structured.members(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Union(structured) => {
                     writeln!(w, "{} {} {{", SHAPE_UNION, shape.id().shape_name())?;
-                    self.write_members(w, structured.members(), "    ")?;
+                    self.write_members(w, model, structured.members(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Service(service) => {
@@ -163,7 +213,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             service
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -175,7 +225,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             service
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -185,10 +235,10 @@ impl SmithyWriter {
                 ShapeKind::Operation(operation) => {
                     writeln!(w, "{} {} {{", SHAPE_OPERATION, shape.id().shape_name())?;
                     if let Some(id) = operation.input() {
-                        writeln!(w, "    {}: {}", MEMBER_INPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_INPUT, self.shape_name(model, id))?;
                     }
                     if let Some(id) = operation.output() {
-                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, self.shape_name(model, id))?;
                     }
                     if operation.has_errors() {
                         writeln!(
@@ -197,7 +247,7 @@ impl SmithyWriter {
                             MEMBER_ERRORS,
                             operation
                                 .errors()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -209,27 +259,27 @@ impl SmithyWriter {
                     if resource.has_identifiers() {
                         writeln!(w, "    {}: {{", MEMBER_IDENTIFIERS)?;
                         for (id, target) in resource.identifiers() {
-                            writeln!(w, "        {}: {}", id, target.shape_name())?;
+                            writeln!(w, "        {}: {}", id, self.shape_name(model, target))?;
                         }
                         writeln!(w, "    }}")?;
                     }
                     if let Some(id) = resource.create() {
-                        writeln!(w, "    {}: {}", MEMBER_CREATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_CREATE, self.shape_name(model, id))?;
                     }
                     if let Some(id) = resource.put() {
-                        writeln!(w, "    {}: {}", MEMBER_PUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_PUT, self.shape_name(model, id))?;
                     }
                     if let Some(id) = resource.read() {
-                        writeln!(w, "    {}: {}", MEMBER_READ, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_READ, self.shape_name(model, id))?;
                     }
                     if let Some(id) = resource.update() {
-                        writeln!(w, "    {}: {}", MEMBER_UPDATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_UPDATE, self.shape_name(model, id))?;
                     }
                     if let Some(id) = resource.delete() {
-                        writeln!(w, "    {}: {}", MEMBER_DELETE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_DELETE, self.shape_name(model, id))?;
                     }
                     if let Some(id) = resource.list() {
-                        writeln!(w, "    {}: {}", MEMBER_LIST, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_LIST, self.shape_name(model, id))?;
                     }
                     if resource.has_operations() {
                         writeln!(
@@ -238,7 +288,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             resource
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -250,7 +300,7 @@ impl SmithyWriter {
                             MEMBER_COLLECTION_OPERATIONS,
                             resource
                                 .collection_operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -262,7 +312,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             resource
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_name(model, s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -273,7 +323,7 @@ impl SmithyWriter {
                     if shape.has_traits() {
                         for (id, value) in shape.traits() {
                             write!(w, "{} {} ", SHAPE_APPLY, shape.id())?;
-                            self.write_trait(w, id, value, "")?;
+                            self.write_trait(w, model, id, value, "")?;
                         }
                     }
                 }
@@ -286,17 +336,12 @@ impl SmithyWriter {
     fn write_trait(
         &mut self,
         w: &mut impl Write,
+        model: &Model,
         id: &ShapeID,
         value: &Option<Value>,
         prefix: &str,
     ) -> Result<()> {
-        let trait_namespace = id.namespace();
-        let id = if *trait_namespace == self.namespace || *trait_namespace == self.prelude_namespace
-        {
-            id.shape_name().to_string()
-        } else {
-            id.to_string()
-        };
+        let id = self.name(model, id, defined_prelude_traits());
         write!(w, "{}{}{}", prefix, TRAIT_PREFIX, id)?;
         match value {
             None => writeln!(w)?,
@@ -354,11 +399,12 @@ impl SmithyWriter {
     fn write_members<'a>(
         &'a mut self,
         w: &mut impl Write,
+        model: &Model,
         members: impl Iterator<Item = &'a MemberShape>,
         prefix: &str,
     ) -> Result<()> {
         for member in members {
-            self.write_member(w, member, prefix)?;
+            self.write_member(w, model, member, prefix)?;
         }
         Ok(())
     }
@@ -366,18 +412,19 @@ impl SmithyWriter {
     fn write_member(
         &mut self,
         w: &mut impl Write,
+        model: &Model,
         member: &MemberShape,
         prefix: &str,
     ) -> Result<()> {
         for (id, value) in member.traits() {
-            self.write_trait(w, id, value, prefix)?;
+            self.write_trait(w, model, id, value, prefix)?;
         }
         writeln!(
             w,
             "{}{}: {}",
             prefix,
             member.id(),
-            member.target().shape_name()
+            self.shape_name(model, member.target())
         )?;
         Ok(())
     }
-- 
2.43.0


From 3ee2f591e46b09414d54f513f24bbadcfd721947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:43 +0000
Subject: [PATCH 43/62] fix: the Smithy writer writes the traits of list, set
 and map members

---
 atelier-smithy/src/writer.rs | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 2f85298..70ddca8 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -9,8 +9,8 @@ use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
-    MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
+    MEMBER_INPUT, MEMBER_LIST, MEMBER_OPERATIONS, MEMBER_OUTPUT,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION,
     SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
     SHAPE_STRUCTURE, SHAPE_UNION,
 };
@@ -159,38 +159,18 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_MEMBER,
-                        self.shape_name(model, list.member().target())
-                    )?;
+                    self.write_member(w, model, list.member(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_MEMBER,
-                        self.shape_name(model, set.member().target())
-                    )?;
+                    self.write_member(w, model, set.member(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_KEY,
-                        self.shape_name(model, map.key().target())
-                    )?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_VALUE,
-                        self.shape_name(model, map.value().target())
-                    )?;
+                    self.write_member(w, model, map.key(), "    ")?;
+                    self.write_member(w, model, map.value(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Structure(structured) => {
-- 
2.43.0


From a019d4f137fdbeea888f2243d5d21f7b55bff4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 44/62] fix: the Smithy writer writes service renames and the
 traits of unresolved shapes

---
 atelier-smithy/src/writer.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 70ddca8..7fa2c75 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -9,10 +9,10 @@ use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
-    MEMBER_INPUT, MEMBER_LIST, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION,
-    SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
-    SHAPE_STRUCTURE, SHAPE_UNION,
+    MEMBER_INPUT, MEMBER_LIST, MEMBER_OPERATIONS, MEMBER_OUTPUT, MEMBER_PUT, MEMBER_READ,
+    MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_APPLY, SHAPE_LIST,
+    SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE,
+    SHAPE_UNION,
 };
 
 use crate::syntax::{
@@ -94,9 +94,16 @@ impl SmithyWriter {
     }
 
     fn used_shapes<'a>(&self, model: &'a Model) -> impl Iterator<Item = &'a TopLevelShape> {
-        model
-            .shapes()
-            .filter(|shape| shape.is_unresolved() && !shape.has_traits())
+        // A name can be imported only if there is no local definition of the same name.
+        let namespace = self.namespace.clone();
+        model.shapes().filter(move |shape| {
+            shape.is_unresolved()
+                && !shape.has_traits()
+                && model
+                    .shape(&namespace.make_shape(shape.id().shape_name().clone()))
+                    .map(|local| local.is_unresolved())
+                    .unwrap_or(true)
+        })
     }
 
     fn write_control_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
@@ -144,10 +151,10 @@ impl SmithyWriter {
 
     fn write_shape_statements(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         let from_namespace = self.namespace.clone();
-        for shape in model
-            .shapes()
-            .filter(|shape| shape.id().namespace() == &from_namespace)
-        {
+        for shape in model.shapes().filter(|shape| {
+            // Traits may be applied to the shapes of any namespace.
+            shape.id().namespace() == &from_namespace || shape.is_unresolved()
+        }) {
             if !shape.body().is_unresolved() {
                 for (id, value) in shape.traits() {
                     self.write_trait(w, model, id, value, "")?;
@@ -198,6 +205,13 @@ impl SmithyWriter {
                                 .join(", ")
                         )?;
                     }
+                    if service.has_renames() {
+                        writeln!(w, "    {}: {{", MEMBER_RENAME)?;
+                        for (id, name) in service.renames() {
+                            writeln!(w, "        \"{}\": \"{}\"", id, name)?;
+                        }
+                        writeln!(w, "    }}")?;
+                    }
                     if service.has_resources() {
                         writeln!(
                             w,
-- 
2.43.0


From 285e8c9bd4b775b8f33fbc291ff4a424fce73f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 45/62] fix: number assertions of scoped attributes compare
 with a number

---
 atelier-core/src/builder/selector.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/builder/selector.rs b/atelier-core/src/builder/selector.rs
index a26ae51..17e135f 100644
--- a/atelier-core/src/builder/selector.rs
+++ b/atelier-core/src/builder/selector.rs
@@ -1074,7 +1074,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1083,7 +1083,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1092,7 +1092,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1101,7 +1101,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
-- 
2.43.0


From bf39f5ed465c24c0f7d0378c0e2548b585e8ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 46/62] fix: selector comparisons and assertions keep the
 values they are given

---
 atelier-core/src/model/selector/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index da97788..ce64134 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -851,10 +851,7 @@ impl AttributeComparison {
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `^=` operator.
     pub fn string_starts_with(rhs: Value) -> Self {
-        Self::new(
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string())],
-        )
+        Self::new(Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `$=` operator.
@@ -1258,11 +1255,7 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `^=` operator.
     pub fn string_starts_with(lhs: ScopedValue, rhs: ScopedValue) -> Self {
-        Self::new(
-            lhs,
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `$=` operator.
@@ -1289,7 +1282,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1298,7 +1291,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1307,7 +1300,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1316,7 +1309,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
-- 
2.43.0


From 93f697057485c680b57017ecaa8ee72cd2d1e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 47/62] fix: GraphML data elements use declared keys, escaped
 text and unique edge IDs

---
 atelier-describe/src/graphml/writer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 7e80a28..9c5cb82 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -43,7 +43,7 @@ For the _message of the day_ model, this writer will generate the following XML.
         <default>member</default>
     </key>
     <graph id="model" edgedefault="directed">
-        <data key="smithy.version">1.0</data>
+        <data key="smithy-version">1.0</data>
         <node id="example.motd#GetMessageOutput">
             <data key="type">structure</data>
         </node>
@@ -140,7 +140,7 @@ pub struct GraphMLWriter {}
 // ------------------------------------------------------------------------------------------------
 
 struct VisitorState<'a, W: Write> {
-    edge_count: u16,
+    edge_count: usize,
     writer: &'a mut W,
 }
 #[allow(clippy::upper_case_acronyms)]
@@ -187,7 +187,7 @@ impl ModelWriter for GraphMLWriter {
         writeln!(w, r#"    <graph id="model" edgedefault="directed">"#)?;
         writeln!(
             w,
-            r#"        <data key="smithy.version">{}</data>"#,
+            r#"        <data key="smithy-version">{}</data>"#,
             model.smithy_version()
         )?;
 
@@ -355,7 +355,7 @@ impl<'a, W: Write> ModelVisitor for GraphMLVisitor<'a, W> {
             writeln!(
                 state.writer,
                 r#"            <data key="version">{}</data>"#,
-                value.version()
+                escape_text(value.version())
             )?;
             writeln!(state.writer, r#"        </node>"#)?;
         }
@@ -464,6 +464,12 @@ impl<'a, W: Write> GraphMLVisitor<'a, W> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+fn escape_text(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 9a2c46e7ad92837ddd039ea04ba496f42342ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:15 +0000
Subject: [PATCH 48/62] fix: PlantUML lifecycle operations are shown under
 their own names

---
 atelier-describe/src/plant_uml/writer.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 9a5a662..9c3ae47 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -114,10 +114,11 @@ use atelier_core::model::HasIdentity;
 use atelier_core::model::{Model, NamespaceID, ShapeID};
 use atelier_core::prelude::PRELUDE_NAMESPACE;
 use atelier_core::syntax::{
-    MEMBER_COLLECTION_OPERATIONS, MEMBER_OPERATIONS, MEMBER_VERSION, SHAPE_BIG_DECIMAL,
-    SHAPE_BIG_INTEGER, SHAPE_BLOB, SHAPE_BOOLEAN, SHAPE_BYTE, SHAPE_DOCUMENT, SHAPE_DOUBLE,
-    SHAPE_FLOAT, SHAPE_INTEGER, SHAPE_LONG, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SHORT,
-    SHAPE_STRING, SHAPE_TIMESTAMP, SHAPE_UNION,
+    MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_LIST, MEMBER_OPERATIONS,
+    MEMBER_PUT, MEMBER_READ, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_BIG_DECIMAL, SHAPE_BIG_INTEGER,
+    SHAPE_BLOB, SHAPE_BOOLEAN, SHAPE_BYTE, SHAPE_DOCUMENT, SHAPE_DOUBLE, SHAPE_FLOAT,
+    SHAPE_INTEGER, SHAPE_LONG, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SHORT, SHAPE_STRING,
+    SHAPE_TIMESTAMP, SHAPE_UNION,
 };
 use std::collections::HashSet;
 use std::io::Write;
@@ -263,22 +264,22 @@ impl PlantUmlWriter {
             writeln!(w, "        {}: {}", id, shape_id)?;
         }
         if let Some(id) = body.create() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_CREATE))?;
         }
         if let Some(id) = body.put() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_PUT))?;
         }
         if let Some(id) = body.read() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_READ))?;
         }
         if let Some(id) = body.update() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_UPDATE))?;
         }
         if let Some(id) = body.delete() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_DELETE))?;
         }
         if let Some(id) = body.list() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some(MEMBER_LIST))?;
         }
         if body.has_operations() {
             writeln!(w, "        ..{}..", MEMBER_OPERATIONS)?;
-- 
2.43.0


From 31c9a7d3d60a28123a11374d93110a83a29e1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:22 +0000
Subject: [PATCH 49/62] fix: a PlantUML package holds the shapes of its own
 namespace

---
 atelier-describe/src/plant_uml/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 9c3ae47..7b0ea92 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -120,7 +120,7 @@ use atelier_core::syntax::{
     SHAPE_INTEGER, SHAPE_LONG, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SHORT, SHAPE_STRING,
     SHAPE_TIMESTAMP, SHAPE_UNION,
 };
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::io::Write;
 use std::str::FromStr;
 
@@ -163,12 +163,12 @@ impl ModelWriter for PlantUmlWriter {
         if self.expand_smithy_api {
             self.write_smithy_model(w)?;
         }
-        let namespaces: HashSet<&NamespaceID> =
+        let namespaces: BTreeSet<&NamespaceID> =
             model.shape_names().map(ShapeID::namespace).collect();
         for namespace in namespaces {
             writeln!(w, "package {} {{", namespace)?;
             writeln!(w)?;
-            for element in model.shapes() {
+            for element in model.shapes().filter(|s| s.id().namespace() == namespace) {
                 match element.body() {
                     ShapeKind::Simple(_) => self.write_data_type(w, element, model)?,
                     ShapeKind::Service(_) => self.write_service(w, element, model)?,
-- 
2.43.0


From 28f2b9d27905aeec977f49a8485d0295171cccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 50/62] fix: the PlantUML writer shows operations that are not
 defined in the model

---
 atelier-describe/src/plant_uml/writer.rs | 28 +++++++++++-------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 7b0ea92..104db99 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -363,28 +363,26 @@ impl PlantUmlWriter {
         model: &Model,
         other_name: Option<&str>,
     ) -> atelier_core::error::Result<()> {
-        let operation = model.shape(oper_id).unwrap();
-        let name = operation.id();
-        let operation = operation.body().as_operation().unwrap();
+        // the operation may not be defined in this model, it is then shown by name alone.
+        let operation = model
+            .shape(oper_id)
+            .and_then(|shape| shape.body().as_operation());
+        let input = operation.and_then(|operation| operation.input().as_ref());
+        let output = operation.and_then(|operation| operation.output().as_ref());
         writeln!(
             w,
             "        {}(in: {}){}",
             match other_name {
-                None => name.to_string(),
+                None => oper_id.to_string(),
                 Some(name) => name.to_string(),
             },
-            if operation.has_input() {
-                self.type_string(&operation.input().as_ref().unwrap(), model)
-            } else {
-                String::new()
+            match input {
+                Some(input) => self.type_string(input, model),
+                None => String::new(),
             },
-            if operation.has_output() {
-                format!(
-                    ": {}",
-                    self.type_string(&operation.output().as_ref().unwrap(), model)
-                )
-            } else {
-                String::new()
+            match output {
+                Some(output) => format!(": {}", self.type_string(output, model)),
+                None => String::new(),
             },
         )?;
         Ok(())
-- 
2.43.0


From 93dd2a5608bd58c30844ed1d5868589574b5dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 51/62] fix: the documentation of a simple shape becomes a
 PlantUML note

---
 atelier-describe/src/plant_uml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 104db99..999db82 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -341,7 +341,7 @@ impl PlantUmlWriter {
         writeln!(w, "    class {} <<dataType>> {{", data_type.id())?;
         let notes = self.write_class_traits(w, data_type, model)?;
         writeln!(w, "    }}")?;
-        writeln!(w, "    {}", notes.join("\n"))?;
+        self.write_class_notes(w, data_type.id(), notes)?;
         if self.expand_smithy_api {
             let simple = data_type.body().as_simple().unwrap();
             writeln!(
-- 
2.43.0


From c13453d34f01b0d2ff923104d9be06250324c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 52/62] fix: the documented path of a nested trait value is the
 whole path

---
 atelier-describe/src/document/writer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 4831a20..a29d869 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -203,26 +203,30 @@ fn trait_value(
         Value::String(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::Array(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 for (i, v) in vs.iter().enumerate() {
-                    result.extend(trait_value(id.clone(), Some(format!("[{}]", i)), v));
+                    let path = format!("{}[{}]", prefix, i);
+                    result.extend(trait_value(id.clone(), Some(path), v));
                 }
             }
         }
         Value::Object(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
                 let mut obj_keys: Vec<&String> = vs.keys().collect();
                 obj_keys.sort();
+                let prefix = prefix.unwrap_or_default();
                 for k in obj_keys {
                     let v = vs.get(k).unwrap();
-                    result.extend(trait_value(id.clone(), Some(format!(".{}", k)), v));
+                    let path = format!("{}.{}", prefix, k);
+                    result.extend(trait_value(id.clone(), Some(path), v));
                 }
             }
         }
-        _ => result.push((id, None, None)),
+        _ => result.push((id, prefix, None)),
     }
     result
 }
-- 
2.43.0


From da5a7bb43e88b077b1a9e261f6b5ca37e0c5d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:14 +0000
Subject: [PATCH 53/62] fix: a documentation trait that is not text does not
 panic the document writer

---
 atelier-describe/src/document/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index a29d869..3ecd43e 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -283,7 +283,10 @@ fn describe_traits(shape: &impl HasTraits, doc: &mut Document) {
 fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_DOCUMENTATION, None);
     if let Some(Some(doc_value)) = shape.trait_named(&trait_id) {
-        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value.as_string().unwrap()));
+        let _ = doc.add_paragraph(Paragraph::plain_str(&match doc_value {
+            Value::String(text) => text.clone(),
+            other => other.to_string(),
+        }));
     }
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
-- 
2.43.0


From 3eb382e0266065d000c24f5cef42dce40dbb3eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 54/62] fix: shape names that start with an underscore do not
 panic the document writer

---
 atelier-describe/src/document/writer.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 3ecd43e..8cc2c42 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -310,14 +310,14 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
 }
 
 fn shape_id_to_label(source: &ShapeID) -> Label {
-    if let Some(member) = source.member_name() {
-        Label::safe_from(
-            &format!("{}_{}", source.shape_name(), member),
-            Some("member"),
-        )
+    // the label has a prefix as part of its text, names may start with an underscore and labels
+    // may not.
+    let label = if let Some(member) = source.member_name() {
+        format!("member:{}_{}", source.shape_name(), member)
     } else {
-        Label::safe_from(&format!("{}", source.shape_name()), Some("shape"))
-    }
+        format!("shape:{}", source.shape_name())
+    };
+    Label::safe_from(&label, None)
 }
 
 fn shape_link(source: &ShapeID, target: &ShapeID) -> InlineContent {
-- 
2.43.0


From 882fed38bd78c2ae2545f220d8f6b8bde1b1af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 55/62] fix: external documentation links have no quotes around
 their target

---
 atelier-describe/src/document/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 8cc2c42..dd51140 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -295,7 +295,10 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
             .iter()
             .map(|(k, v)| {
                 InlineContent::HyperLink(HyperLink::external_with_caption(
-                    &v.to_string(),
+                    &match v {
+                        Value::String(target) => target.clone(),
+                        other => other.to_string(),
+                    },
                     Caption::from(k.to_string()),
                 ))
             })
-- 
2.43.0


From ac304918970d1ac7afabc69412b3cd0485ef8aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:30 +0000
Subject: [PATCH 56/62] fix: the order of a document does not depend on hash
 order

---
 atelier-describe/src/document/writer.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index dd51140..8214052 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -137,7 +137,9 @@ fn describe_this_model(model: &Model, doc: &mut Document) {
     }
 
     if model.has_shapes() {
-        for namespace in model.namespaces() {
+        let mut namespaces: Vec<&NamespaceID> = model.namespaces().into_iter().collect();
+        namespaces.sort();
+        for namespace in namespaces {
             describe_model_shapes(model, namespace, doc);
         }
     }
@@ -291,8 +293,10 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
     if let Some(Some(Value::Object(value_map))) = shape.trait_named(&trait_id) {
-        let mut links: Vec<InlineContent> = value_map
-            .iter()
+        let mut entries: Vec<(&String, &Value)> = value_map.iter().collect();
+        entries.sort_by_key(|(k, _)| *k);
+        let mut links: Vec<InlineContent> = entries
+            .into_iter()
             .map(|(k, v)| {
                 InlineContent::HyperLink(HyperLink::external_with_caption(
                     &match v {
@@ -366,7 +370,9 @@ fn describe_structure_or_union(shape_id: &ShapeID, shape: &StructureOrUnion, doc
     if shape.has_members() {
         let _ = doc.add_heading(Heading::sub_sub_section("Members"));
         let mut indent = Quote::default();
-        for member in shape.members() {
+        let mut members: Vec<_> = shape.members().collect();
+        members.sort_by_key(|member| member.id());
+        for member in members {
             let _ = indent.add_paragraph(Paragraph::from(vec![
                 Span::code_str(&member.id().to_string()).into(),
                 Span::plain_str(": ").into(),
@@ -408,7 +414,9 @@ fn describe_service(shape_id: &ShapeID, shape: &Service, doc: &mut Document) {
         let _ = doc.add_heading(Heading::sub_sub_section("Renames"));
         let mut indent = Quote::default();
         let mut list = List::unordered();
-        for (shape_id, local_name) in shape.renames() {
+        let mut renames: Vec<_> = shape.renames().collect();
+        renames.sort_by_key(|(shape_id, _)| *shape_id);
+        for (shape_id, local_name) in renames {
             let _ = list.add_item(Item::from(InlineContent::Span(Span::from(vec![
                 Span::code_str(&shape_id.to_string()).into(),
                 Span::plain_str(" renamed to ").into(),
@@ -538,7 +546,9 @@ fn describe_resource(shape_id: &ShapeID, shape: &Resource, doc: &mut Document) {
 
 fn describe_model_metadata(model: &Model, doc: &mut Document) {
     let mut metadata = Table::new(&[Column::new("Key"), Column::new("Value")]);
-    for (key, value) in model.metadata() {
+    let mut entries: Vec<(&String, &Value)> = model.metadata().collect();
+    entries.sort_by_key(|(key, _)| *key);
+    for (key, value) in entries {
         metadata.add_row(Row::new(&[
             Cell::plain_str(key),
             Cell::code_str(&value.to_string()),
-- 
2.43.0


From d96b632ecd36e0e04cbdd0cf59dc4d234d1af4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 57/62] fix: RDF arrays are sequences with numbered elements

---
 atelier-rdf/src/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 37af978..f696d09 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -832,12 +832,12 @@ fn from_value(
                     .statement(
                         the_value.clone(),
                         rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::list().clone()),
+                        statement_factory.named_object(rdf::seq().clone()),
                     )
                     .unwrap(),
             );
-            for value in v {
-                from_value(graph, the_value.clone(), rdf::li().clone(), value)?;
+            for (idx, value) in v.iter().enumerate() {
+                from_value(graph, the_value.clone(), rdf::member(idx + 1), value)?;
             }
         }
         Value::Object(v) => {
-- 
2.43.0


From 3e7dcf174a47596fa68b5b7e329d094191b60dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 58/62] fix: RDF objects have numbered entries and null is
 smithy:null

---
 atelier-rdf/src/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index f696d09..9a90fd8 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -860,13 +860,13 @@ fn from_value(
                     )
                     .unwrap(),
             );
-            for (k, v) in v {
+            for (idx, (k, v)) in v.iter().enumerate() {
                 let kv_pair = graph.statement_factory().blank_subject();
                 graph.insert(
                     statement_factory
                         .statement(
                             the_value.clone(),
-                            rdf::li().clone(),
+                            rdf::member(idx + 1),
                             statement_factory.subject_as_object(kv_pair.clone()),
                         )
                         .unwrap(),
@@ -889,7 +889,7 @@ fn from_value(
                     .statement(
                         subject,
                         predicate,
-                        statement_factory.named_object(rdf::nil().clone()),
+                        statement_factory.named_object(vocabulary::null().clone()),
                     )
                     .unwrap(),
             );
-- 
2.43.0


From b51b1eeb5352c6a1422e1c618b41cbb30d744122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 59/62] fix: RDF resource identifiers name their target
 smithy:target

---
 atelier-rdf/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 9a90fd8..240ffe2 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -554,7 +554,7 @@ impl ModelVisitor for RdfModelVisitor {
                     statement_factory
                         .statement(
                             name_target_pair.clone(),
-                            vocabulary::value().clone(),
+                            vocabulary::target().clone(),
                             statement_factory.named_object(shape_to_iri(target).clone()),
                         )
                         .unwrap(),
-- 
2.43.0


From 77b076f0a03e25f3187636a73ba24c1d72caa4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 60/62] fix: the RDF writer writes the renames of a service

---
 atelier-rdf/src/writer.rs | 52 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 240ffe2..abaaefc 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -428,6 +428,58 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
         }
+        if shape.has_renames() {
+            let rename_bag = statement_factory.blank_subject();
+            graph.insert(
+                statement_factory
+                    .statement(
+                        statement_factory.named_subject(subject.clone()),
+                        vocabulary::rename().clone(),
+                        statement_factory.subject_as_object(rename_bag.clone()),
+                    )
+                    .unwrap(),
+            );
+            graph.insert(
+                statement_factory
+                    .statement(
+                        rename_bag.clone(),
+                        rdf::a_type().clone(),
+                        statement_factory.named_object(rdf::bag().clone()),
+                    )
+                    .unwrap(),
+            );
+            for (idx, (target, name)) in shape.renames().enumerate() {
+                let rename = statement_factory.blank_subject();
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename_bag.clone(),
+                            rdf::member(idx + 1),
+                            statement_factory.subject_as_object(rename.clone()),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename.clone(),
+                            vocabulary::shape().clone(),
+                            statement_factory.named_object(shape_to_iri(target)),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename,
+                            vocabulary::name().clone(),
+                            statement_factory
+                                .literal_object(literal_factory.literal(&name.to_string())),
+                        )
+                        .unwrap(),
+                );
+            }
+        }
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
-- 
2.43.0


From cc7c726e627b6fee46a3843805f9f816f8dc4c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 61/62] fix: the RDF writer writes the metadata of a model

---
 atelier-rdf/src/writer.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index abaaefc..de8feef 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -59,7 +59,7 @@ use atelier_core::model::shapes::{
     AppliedTraits, HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, Simple,
     StructureOrUnion,
 };
-use atelier_core::model::values::{Number, Value};
+use atelier_core::model::values::{Number, Value, ValueMap};
 use atelier_core::model::visitor::{walk_model, ModelVisitor};
 use atelier_core::model::{HasIdentity, Model, ShapeID};
 use rdftk_core::model::graph::{Graph, GraphFactoryRef, GraphRef};
@@ -174,6 +174,20 @@ pub fn model_to_rdf(
     };
     walk_model(model, &visitor)?;
 
+    if model.has_metadata() {
+        let metadata: ValueMap = model
+            .metadata()
+            .map(|(key, value)| (key.clone(), value.clone()))
+            .collect();
+        let mut graph: RefMut<'_, dyn Graph> = visitor.graph.borrow_mut();
+        from_value(
+            &mut graph,
+            visitor.model_subject.clone(),
+            vocabulary::metadata().clone(),
+            &Value::Object(metadata),
+        )?;
+    }
+
     Ok(visitor.graph)
 }
 
@@ -219,10 +233,6 @@ impl RdfWriter {
 impl ModelVisitor for RdfModelVisitor {
     type Error = ModelError;
 
-    fn metadata(&self, _key: &str, _value: &Value) -> Result<(), Self::Error> {
-        Ok(())
-    }
-
     fn simple_shape(
         &self,
         id: &ShapeID,
-- 
2.43.0


From 83b8cae7fe0f5a30cc60e4e1416f1fd7648d24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:38 +0000
Subject: [PATCH 62/62] fix: a missing or invalid namespace is an error of the
 command, which exits with a failure

---
 cargo-atelier/src/actions.rs  | 4 ++--
 cargo-atelier/src/bin/main.rs | 8 +-------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 2a76715..bea91aa 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -90,7 +90,7 @@ fn write_model(
         FileFormat::Json => write_json(&mut file, model),
         FileFormat::Smithy => {
             if let Some(namespace) = namespace {
-                write_smithy(&mut file, model, NamespaceID::from_str(&namespace).unwrap())
+                write_smithy(&mut file, model, NamespaceID::from_str(&namespace)?)
             } else {
                 let namespaces = &model.namespaces();
                 if namespaces.len() == 1 {
@@ -100,7 +100,7 @@ fn write_model(
                         (*namespaces.iter().next().unwrap()).clone(),
                     )
                 } else {
-                    panic!("A namespace value is required for writing Smithy IDL");
+                    Err("A namespace value is required for writing Smithy IDL".into())
                 }
             }
         }
diff --git a/cargo-atelier/src/bin/main.rs b/cargo-atelier/src/bin/main.rs
index 2fe7a53..6c95700 100644
--- a/cargo-atelier/src/bin/main.rs
+++ b/cargo-atelier/src/bin/main.rs
@@ -2,7 +2,7 @@ use cargo_atelier::{actions, command_line, report, Command};
 use std::error::Error;
 
 fn main() -> Result<(), Box<dyn Error>> {
-    let result = match command_line::parse()? {
+    match command_line::parse()? {
         Command::Lint(cmd, search_path, options) => {
             report::report_action_issues(actions::lint_file(cmd, search_path)?, options.use_color)
         }
@@ -12,11 +12,5 @@ fn main() -> Result<(), Box<dyn Error>> {
         ),
         Command::Convert(cmd, search_path, _) => actions::convert_file_format(cmd, search_path),
         Command::Document(cmd, search_path, _) => actions::document_file(cmd, search_path),
-    };
-
-    if result.is_err() {
-        eprintln!("{}", (&result).as_ref().err().unwrap().source().unwrap())
     }
-
-    Ok(())
 }
-- 
2.43.0

