From 26c0929e62ea9b342f637d35ad3cbe463021af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:14 +0000
Subject: [PATCH 01/43] fix: recognise NonZeroUsize and NonZeroIsize under
 their std names

---
 src/bindgen/ir/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index dd4bf02..2f5885d 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -114,12 +114,12 @@ impl PrimitiveType {
             "NonZeroU16" => (IntKind::B16, false),
             "NonZeroU32" => (IntKind::B32, false),
             "NonZeroU64" => (IntKind::B64, false),
-            "NonZeroUSize" => (IntKind::Size, false),
+            "NonZeroUsize" => (IntKind::Size, false),
             "NonZeroI8" => (IntKind::B8, true),
             "NonZeroI16" => (IntKind::B16, true),
             "NonZeroI32" => (IntKind::B32, true),
             "NonZeroI64" => (IntKind::B64, true),
-            "NonZeroISize" => (IntKind::Size, true),
+            "NonZeroIsize" => (IntKind::Size, true),
 
             _ => return None,
         };
-- 
2.43.0


From db4539682d4130e416cf9c3a30bcea33c642b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:14 +0000
Subject: [PATCH 02/43] fix: escape reserved keywords in union field names

---
 src/bindgen/ir/union.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bindgen/ir/union.rs b/src/bindgen/ir/union.rs
index 9c42583..d96b2f2 100644
--- a/src/bindgen/ir/union.rs
+++ b/src/bindgen/ir/union.rs
@@ -15,6 +15,7 @@ use crate::bindgen::library::Library;
 use crate::bindgen::mangle;
 use crate::bindgen::monomorph::Monomorphs;
 use crate::bindgen::rename::{IdentifierType, RenameRule};
+use crate::bindgen::reserved;
 use crate::bindgen::utilities::IterHelpers;
 
 #[derive(Debug, Clone)]
@@ -210,6 +211,10 @@ impl Item for Union {
                 field.name.insert(0, '_');
             }
         }
+
+        for field in &mut self.fields {
+            reserved::escape(&mut field.name);
+        }
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
-- 
2.43.0


From 5732fc22151c69c7dcfa9d1293f92b68503ba056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:34 +0000
Subject: [PATCH 03/43] fix: instantiate and mangle generic types used only by
 statics

---
 src/bindgen/ir/global.rs | 9 +++++++++
 src/bindgen/library.rs   | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/bindgen/ir/global.rs b/src/bindgen/ir/global.rs
index 7816a29..75c165a 100644
--- a/src/bindgen/ir/global.rs
+++ b/src/bindgen/ir/global.rs
@@ -9,6 +9,7 @@ use crate::bindgen::ir::{
     AnnotationSet, Cfg, Documentation, GenericParams, Item, ItemContainer, Path, Type,
 };
 use crate::bindgen::library::Library;
+use crate::bindgen::monomorph::Monomorphs;
 
 #[derive(Debug, Clone)]
 pub struct Static {
@@ -66,6 +67,14 @@ impl Static {
     pub fn simplify_standard_types(&mut self, config: &Config) {
         self.ty.simplify_standard_types(config);
     }
+
+    pub fn add_monomorphs(&self, library: &Library, out: &mut Monomorphs) {
+        self.ty.add_monomorphs(library, out);
+    }
+
+    pub fn mangle_paths(&mut self, monomorphs: &Monomorphs) {
+        self.ty.mangle_paths(monomorphs);
+    }
 }
 
 impl Item for Static {
diff --git a/src/bindgen/library.rs b/src/bindgen/library.rs
index 9bccceb..f9e76cc 100644
--- a/src/bindgen/library.rs
+++ b/src/bindgen/library.rs
@@ -402,6 +402,9 @@ impl Library {
         self.typedefs.for_all_items(|x| {
             x.add_monomorphs(self, &mut monomorphs);
         });
+        self.globals.for_all_items(|x| {
+            x.add_monomorphs(self, &mut monomorphs);
+        });
         for x in &self.functions {
             x.add_monomorphs(self, &mut monomorphs);
         }
@@ -439,6 +442,8 @@ impl Library {
             .for_all_items_mut(|x| x.mangle_paths(&monomorphs));
         self.typedefs
             .for_all_items_mut(|x| x.mangle_paths(&monomorphs));
+        self.globals
+            .for_all_items_mut(|x| x.mangle_paths(&monomorphs));
         for x in &mut self.functions {
             x.mangle_paths(&monomorphs);
         }
-- 
2.43.0


From cba62a69b77f836ffbf8a728c8193a9d85fc27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:34 +0000
Subject: [PATCH 04/43] fix: escape keywords produced by enum variant rename
 rules

---
 src/bindgen/ir/enumeration.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index aa83a78..3fe0af0 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -601,6 +601,14 @@ impl Item for Enum {
                     )
                 })
                 .collect();
+
+            // The rename rule may have produced a reserved keyword.
+            for variant in &mut self.variants {
+                reserved::escape(&mut variant.export_name);
+                if let VariantBody::Body { ref mut name, .. } = variant.body {
+                    reserved::escape(name);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 5cd187f68e8c4fd427adf83c1a79a9e658f06963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 05/43] fix: apply const of immutable statics to the static,
 not its pointee

---
 src/bindgen/cdecl.rs                   | 17 +++++++++++++++++
 src/bindgen/language_backend/clike.rs  |  6 +-----
 src/bindgen/language_backend/cython.rs |  6 +-----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/bindgen/cdecl.rs b/src/bindgen/cdecl.rs
index c1baf98..e8eddc9 100644
--- a/src/bindgen/cdecl.rs
+++ b/src/bindgen/cdecl.rs
@@ -62,6 +62,12 @@ impl CDecl {
         cdecl
     }
 
+    fn from_static(t: &Type, is_const: bool, config: &Config) -> CDecl {
+        let mut cdecl = CDecl::new();
+        cdecl.build_type(t, is_const, config);
+        cdecl
+    }
+
     fn from_func_arg(t: &Type, array_length: Option<&str>, config: &Config) -> CDecl {
         let mut cdecl = CDecl::new();
         let length = match array_length {
@@ -391,6 +397,17 @@ pub fn write_field<F: Write, LB: LanguageBackend>(
     CDecl::from_type(t, config).write(language_backend, out, Some(ident), config);
 }
 
+pub fn write_static<F: Write, LB: LanguageBackend>(
+    language_backend: &mut LB,
+    out: &mut SourceWriter<F>,
+    t: &Type,
+    is_const: bool,
+    ident: &str,
+    config: &Config,
+) {
+    CDecl::from_static(t, is_const, config).write(language_backend, out, Some(ident), config);
+}
+
 pub fn write_type<F: Write, LB: LanguageBackend>(
     language_backend: &mut LB,
     out: &mut SourceWriter<F>,
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 4d927ab..89170d5 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -757,11 +757,7 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
 
         self.write_documentation(out, &s.documentation);
         out.write("extern ");
-        if let Type::Ptr { is_const: true, .. } = s.ty {
-        } else if !s.mutable {
-            out.write("const ");
-        }
-        cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
+        cdecl::write_static(self, out, &s.ty, !s.mutable, &s.export_name, self.config);
         out.write(";");
 
         condition.write_after(self.config, out);
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index ad5bb7b..0809a3e 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -302,11 +302,7 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
 
         self.write_documentation(out, &s.documentation);
         out.write("extern ");
-        if let Type::Ptr { is_const: true, .. } = s.ty {
-        } else if !s.mutable {
-            out.write("const ");
-        }
-        cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
+        cdecl::write_static(self, out, &s.ty, !s.mutable, &s.export_name, self.config);
         out.write(";");
 
         condition.write_after(self.config, out);
-- 
2.43.0


From 99a237f579cf89639bccebb5587d2b9653fa3470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:14 +0000
Subject: [PATCH 06/43] fix: mangle function pointer arguments that are not
 last distinctly

---
 src/bindgen/mangle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/mangle.rs b/src/bindgen/mangle.rs
index 01812e9..c7e339c 100644
--- a/src/bindgen/mangle.rs
+++ b/src/bindgen/mangle.rs
@@ -119,13 +119,13 @@ impl<'a> Mangler<'a> {
                 ref ret, ref args, ..
             } => {
                 self.push(Separator::BeginFn);
-                self.append_mangled_type(ret, args.is_empty());
+                self.append_mangled_type(ret, last && args.is_empty());
                 for (i, arg) in args.iter().enumerate() {
                     self.push(Separator::BetweenFnArg);
                     let last = last && i == args.len() - 1;
                     self.append_mangled_type(&arg.1, last);
                 }
-                if !self.last {
+                if !last {
                     self.push(Separator::EndFn);
                 }
             }
-- 
2.43.0


From c4fa6af9f2a5e81c546157dfe1155c4e1f84e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:11 +0000
Subject: [PATCH 07/43] fix: print the conditions any() and all() instead of
 dropping them

---
 src/bindgen/ir/cfg.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/bindgen/ir/cfg.rs b/src/bindgen/ir/cfg.rs
index 9bf632c..a6c041c 100644
--- a/src/bindgen/ir/cfg.rs
+++ b/src/bindgen/ir/cfg.rs
@@ -228,6 +228,9 @@ impl ToCondition for Cfg {
                     None
                 }
             }
+            // `any()` is always false and `all()` always true, with no option to look up.
+            Cfg::Any(ref children) if children.is_empty() => Some(Condition::Any(vec![])),
+            Cfg::All(ref children) if children.is_empty() => Some(Condition::All(vec![])),
             Cfg::Any(ref children) => {
                 let conditions: Vec<_> = children
                     .iter()
@@ -277,6 +280,20 @@ impl Condition {
                     out.write(")");
                 }
             }
+            Condition::Any(ref conditions) if conditions.is_empty() => {
+                out.write(if config.language == Language::Cython {
+                    "False"
+                } else {
+                    "0"
+                });
+            }
+            Condition::All(ref conditions) if conditions.is_empty() => {
+                out.write(if config.language == Language::Cython {
+                    "True"
+                } else {
+                    "1"
+                });
+            }
             Condition::Any(ref conditions) => {
                 out.write("(");
                 for (i, condition) in conditions.iter().enumerate() {
-- 
2.43.0


From e73e1a5e38aca0bbcbebe6e655facadb1eb00308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:47 +0000
Subject: [PATCH 08/43] fix: escape reserved keywords in the argument names of
 function pointers

---
 src/bindgen/ir/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index 2f5885d..8d8e78d 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -12,6 +12,7 @@ use crate::bindgen::dependencies::Dependencies;
 use crate::bindgen::ir::{GenericArgument, GenericParams, GenericPath, Path};
 use crate::bindgen::library::Library;
 use crate::bindgen::monomorph::Monomorphs;
+use crate::bindgen::reserved;
 use crate::bindgen::utilities::IterHelpers;
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
@@ -770,7 +771,10 @@ impl Type {
                 ..
             } => {
                 ret.rename_for_config(config, generic_params);
-                for (_, arg) in args {
+                for (name, arg) in args {
+                    if let Some(name) = name {
+                        reserved::escape(name);
+                    }
                     arg.rename_for_config(config, generic_params);
                 }
             }
-- 
2.43.0


From d7a9482df3b4c6ce7597c214ba54eec662e43e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 09/43] fix: escape keywords produced by prefixing enum
 variants

---
 src/bindgen/ir/enumeration.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 3fe0af0..4d3847d 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -601,13 +601,13 @@ impl Item for Enum {
                     )
                 })
                 .collect();
+        }
 
-            // The rename rule may have produced a reserved keyword.
-            for variant in &mut self.variants {
-                reserved::escape(&mut variant.export_name);
-                if let VariantBody::Body { ref mut name, .. } = variant.body {
-                    reserved::escape(name);
-                }
+        // The prefix or the rename rule may have produced a reserved keyword.
+        for variant in &mut self.variants {
+            reserved::escape(&mut variant.export_name);
+            if let VariantBody::Body { ref mut name, .. } = variant.body {
+                reserved::escape(name);
             }
         }
     }
-- 
2.43.0


From 8d12c46c2f6e5cdf5071f44a4f9919dbf5baffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:00 +0000
Subject: [PATCH 10/43] fix: escape reserved keywords in the arguments of
 derived constructors

---
 src/bindgen/ir/enumeration.rs         | 6 ++++--
 src/bindgen/language_backend/clike.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 4d3847d..7afde9e 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -1164,11 +1164,13 @@ impl Enum {
                 condition.write_before(config, out);
 
                 let arg_renamer = |name: &str| {
-                    config
+                    let mut name = config
                         .function
                         .rename_args
                         .apply(name, IdentifierType::FunctionArg)
-                        .into_owned()
+                        .into_owned();
+                    reserved::escape(&mut name);
+                    name
                 };
 
                 macro_rules! write_attrs {
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 89170d5..bda265e 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -5,6 +5,7 @@ use crate::bindgen::ir::{
 };
 use crate::bindgen::language_backend::LanguageBackend;
 use crate::bindgen::rename::IdentifierType;
+use crate::bindgen::reserved;
 use crate::bindgen::writer::{ListType, SourceWriter};
 use crate::bindgen::{cdecl, Bindings, Config, Language};
 use crate::bindgen::{DocumentationLength, DocumentationStyle};
@@ -131,11 +132,14 @@ impl<'a> CLikeLanguageBackend<'a> {
                 .fields
                 .iter()
                 .map(|field| {
-                    self.config
+                    let mut name = self
+                        .config
                         .function
                         .rename_args
                         .apply(&field.name, IdentifierType::FunctionArg)
-                        .into_owned()
+                        .into_owned();
+                    reserved::escape(&mut name);
+                    name
                 })
                 .collect();
             write!(out, "{}(", s.export_name());
-- 
2.43.0


From 534d68ccfc02f1b68e50b83a460b5de7ad3fbb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 11/43] fix: write no symbol or dependency file in a recursive
 invocation

---
 src/bindgen/bindings.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index dbd0b7d..c63d378 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -184,6 +184,10 @@ impl Bindings {
     }
 
     pub fn generate_symfile<P: AsRef<path::Path>>(&self, symfile_path: P) {
+        if self.noop {
+            return;
+        }
+
         if let Some(dir) = symfile_path.as_ref().parent() {
             std::fs::create_dir_all(dir).unwrap();
         }
@@ -196,6 +200,10 @@ impl Bindings {
     }
 
     pub fn generate_depfile<P: AsRef<path::Path>>(&self, header_path: P, depfile_path: P) {
+        if self.noop {
+            return;
+        }
+
         if let Some(dir) = depfile_path.as_ref().parent() {
             if !dir.exists() {
                 std::fs::create_dir_all(dir).unwrap()
-- 
2.43.0


From e19eb0c9c7a4d1753c1701ab4c996dd58089c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:36 +0000
Subject: [PATCH 12/43] fix: keep the fields of a struct literal in source
 order

They were kept in a HashMap, so the order in which the types named by a
constant's value were emitted changed from run to run.
---
 src/bindgen/ir/constant.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index f96b2da..80e138f 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -3,9 +3,9 @@
  * file, You can obtain one at http://mozilla.org/MPL/2.0/. */
 
 use std::borrow::Cow;
-use std::collections::HashMap;
 use std::io::Write;
 
+use indexmap::IndexMap;
 use syn::ext::IdentExt;
 use syn::UnOp;
 
@@ -108,7 +108,7 @@ pub enum Literal {
     Struct {
         path: Path,
         export_name: String,
-        fields: HashMap<String, LiteralStructField>,
+        fields: IndexMap<String, LiteralStructField>,
     },
     Cast {
         ty: Type,
@@ -437,7 +437,7 @@ impl Literal {
                     } => name,
                     _ => return Err(format!("Unsupported call expression. {:?}", *expr)),
                 };
-                let mut fields = HashMap::<String, LiteralStructField>::default();
+                let mut fields = IndexMap::<String, LiteralStructField>::default();
                 for (index, arg) in args.iter().enumerate() {
                     let ident =
                         member_to_ident(&syn::Member::Unnamed(syn::Index::from(index))).to_string();
@@ -458,7 +458,7 @@ impl Literal {
                 ..
             }) => {
                 let struct_name = path.segments[0].ident.unraw().to_string();
-                let mut field_map = HashMap::<String, LiteralStructField>::default();
+                let mut field_map = IndexMap::<String, LiteralStructField>::default();
                 for field in fields {
                     let ident = member_to_ident(&field.member).to_string();
                     let cfg = Cfg::load(&field.attrs);
-- 
2.43.0


From a899d5c3a6c34227d7e6695ba482ed2ff676a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:10 +0000
Subject: [PATCH 13/43] fix: emit an enum after the items its discriminants
 refer to

The layering moved every enum without data to the front, also one whose
discriminant uses an associated constant of a struct.
---
 src/bindgen/dependencies.rs   |  8 ++++----
 src/bindgen/ir/constant.rs    | 18 ++++++++++++++++++
 src/bindgen/ir/enumeration.rs | 10 ++++++++++
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/dependencies.rs b/src/bindgen/dependencies.rs
index 26501c9..e6b06da 100644
--- a/src/bindgen/dependencies.rs
+++ b/src/bindgen/dependencies.rs
@@ -46,15 +46,15 @@ impl Dependencies {
 
     pub fn sort(&mut self) {
         // Sort untagged enums and opaque structs into their own layers because they don't
-        // depend on each other or anything else.
+        // depend on each other or anything else (except for enums whose discriminants do).
         let ordering = |a: &ItemContainer, b: &ItemContainer| match (a, b) {
             (ItemContainer::Enum(x), ItemContainer::Enum(y))
-                if x.tag.is_none() && y.tag.is_none() =>
+                if x.is_standalone() && y.is_standalone() =>
             {
                 Ordering::Equal
             }
-            (ItemContainer::Enum(x), _) if x.tag.is_none() => Ordering::Less,
-            (_, ItemContainer::Enum(x)) if x.tag.is_none() => Ordering::Greater,
+            (ItemContainer::Enum(x), _) if x.is_standalone() => Ordering::Less,
+            (_, ItemContainer::Enum(x)) if x.is_standalone() => Ordering::Greater,
 
             (ItemContainer::OpaqueItem(x), ItemContainer::OpaqueItem(y)) => x.path.cmp(&y.path),
             (&ItemContainer::OpaqueItem(_), _) => Ordering::Less,
diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 80e138f..5e085ee 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -140,6 +140,24 @@ impl Literal {
         });
     }
 
+    /// Whether the value refers to other items, see `add_dependencies`.
+    pub fn has_dependencies(&self) -> bool {
+        let mut has_dependencies = false;
+        self.visit(&mut |lit| {
+            has_dependencies = has_dependencies
+                || matches!(
+                    lit,
+                    Literal::Struct { .. }
+                        | Literal::Path {
+                            associated_to: Some(_),
+                            ..
+                        }
+                );
+            !has_dependencies
+        });
+        has_dependencies
+    }
+
     pub fn replace_self_with(&mut self, self_ty: &Path) {
         match *self {
             Literal::PostfixUnaryOp { ref mut value, .. } => {
diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 7afde9e..ba0d2f1 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -320,6 +320,16 @@ impl Enum {
         self.tag.as_deref().unwrap_or_else(|| self.export_name())
     }
 
+    /// Whether this enum has no data and doesn't refer to any other item.
+    pub(crate) fn is_standalone(&self) -> bool {
+        self.tag.is_none()
+            && !self.variants.iter().any(|v| {
+                v.discriminant
+                    .as_ref()
+                    .is_some_and(|d| d.has_dependencies())
+            })
+    }
+
     /// Enum with data turns into a union of structs with each struct having its own tag field.
     pub(crate) fn inline_tag_field(repr: &Repr) -> bool {
         repr.style != ReprStyle::C
-- 
2.43.0


From a3471185fb54639132afc067f5b7b9e650873a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:05 +0000
Subject: [PATCH 14/43] fix: refer to a sized repr(C) enum by its typedef name

---
 src/bindgen/ir/enumeration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index ba0d2f1..78a4c4b 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -500,7 +500,7 @@ impl Item for Enum {
             } else {
                 resolver.add_union(&self.path);
             }
-        } else if self.repr.style == ReprStyle::C {
+        } else if self.repr.style == ReprStyle::C && self.repr.ty.is_none() {
             resolver.add_enum(&self.path);
         } else {
             // This is important to handle conflicting names with opaque items.
-- 
2.43.0


From 19406c7dd55fc039fb91f2207d3335b080630879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:06 +0000
Subject: [PATCH 15/43] fix: derive no comparison for a variant body with
 nothing but its tag

---
 src/bindgen/ir/structure.rs           | 13 ++++++++++++-
 src/bindgen/language_backend/clike.rs | 20 ++++----------------
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index b481096..2b59575 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -43,7 +43,18 @@ pub struct Struct {
 impl Struct {
     /// Whether this struct can derive operator== / operator!=.
     pub fn can_derive_eq(&self) -> bool {
-        !self.fields.is_empty() && self.fields.iter().all(|x| x.ty.can_cmp_eq())
+        let skip_fields = self.has_tag_field as usize;
+        self.fields.len() > skip_fields
+            && self
+                .fields
+                .iter()
+                .skip(skip_fields)
+                .all(|x| x.ty.can_cmp_eq())
+    }
+
+    /// Whether this struct can derive operator< and the other orderings.
+    pub fn can_derive_order(&self) -> bool {
+        !self.has_tag_field && self.fields.len() == 1 && self.fields[0].ty.can_cmp_order()
     }
 
     pub fn add_associated_constant(&mut self, c: Constant) {
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index bda265e..6dae932 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -315,28 +315,16 @@ impl<'a> CLikeLanguageBackend<'a> {
         if self.config.structure.derive_neq(&s.annotations) && s.can_derive_eq() {
             emit_op!("neq", "!=", "||");
         }
-        if self.config.structure.derive_lt(&s.annotations)
-            && s.fields.len() == 1
-            && s.fields[0].ty.can_cmp_order()
-        {
+        if self.config.structure.derive_lt(&s.annotations) && s.can_derive_order() {
             emit_op!("lt", "<", "&&");
         }
-        if self.config.structure.derive_lte(&s.annotations)
-            && s.fields.len() == 1
-            && s.fields[0].ty.can_cmp_order()
-        {
+        if self.config.structure.derive_lte(&s.annotations) && s.can_derive_order() {
             emit_op!("lte", "<=", "&&");
         }
-        if self.config.structure.derive_gt(&s.annotations)
-            && s.fields.len() == 1
-            && s.fields[0].ty.can_cmp_order()
-        {
+        if self.config.structure.derive_gt(&s.annotations) && s.can_derive_order() {
             emit_op!("gt", ">", "&&");
         }
-        if self.config.structure.derive_gte(&s.annotations)
-            && s.fields.len() == 1
-            && s.fields[0].ty.can_cmp_order()
-        {
+        if self.config.structure.derive_gte(&s.annotations) && s.can_derive_order() {
             emit_op!("gte", ">=", "&&");
         }
     }
-- 
2.43.0


From a8190a9ebf1b1a72013abdb422a74528da70613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:06 +0000
Subject: [PATCH 16/43] fix: derive operator== of a tagged enum only along with
 its bodies'

---
 src/bindgen/ir/enumeration.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 78a4c4b..e5c2b8e 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -155,6 +155,9 @@ impl EnumVariant {
         if let Some(b) = enum_annotations.bool("derive-ostream") {
             annotations.add_default("derive-ostream", AnnotationValue::Bool(b));
         }
+        if let Some(b) = enum_annotations.bool("derive-eq") {
+            annotations.add_default("derive-eq", AnnotationValue::Bool(b));
+        }
 
         let body_rule = enum_annotations.parse_atom::<RenameRule>("rename-variant-name-fields");
         let body_rule = body_rule
@@ -345,14 +348,16 @@ impl Enum {
         }
     }
 
-    fn can_derive_eq(&self) -> bool {
+    fn can_derive_eq(&self, config: &Config) -> bool {
         if self.tag.is_none() {
             return false;
         }
 
         self.variants.iter().all(|variant| match variant.body {
             VariantBody::Empty(..) => true,
-            VariantBody::Body { ref body, .. } => body.can_derive_eq(),
+            VariantBody::Body { ref body, .. } => {
+                body.can_derive_eq() && config.structure.derive_eq(&body.annotations)
+            }
         })
     }
 
@@ -1357,7 +1362,7 @@ impl Enum {
             }};
         }
 
-        if self.can_derive_eq() && config.structure.derive_eq(&self.annotations) {
+        if self.can_derive_eq(config) && config.structure.derive_eq(&self.annotations) {
             out.new_line();
             out.new_line();
             write_attrs!("eq");
-- 
2.43.0


From c0cb6fe82a8d5ad5be051603413321ec75f429a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:14 +0000
Subject: [PATCH 17/43] fix: parenthesise nested unary operators in constants

---
 src/bindgen/language_backend/clike.rs  | 9 ++++++++-
 src/bindgen/language_backend/cython.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 6dae932..429976f 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -868,7 +868,14 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
             }
             Literal::PostfixUnaryOp { op, ref value } => {
                 write!(out, "{op}");
-                self.write_literal(out, value);
+                if let Literal::PostfixUnaryOp { .. } = **value {
+                    // `-(-x)` isn't `--x`.
+                    write!(out, "(");
+                    self.write_literal(out, value);
+                    write!(out, ")");
+                } else {
+                    self.write_literal(out, value);
+                }
             }
             Literal::BinOp {
                 ref left,
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 0809a3e..050f2b7 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -361,7 +361,14 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
             }
             Literal::PostfixUnaryOp { op, ref value } => {
                 write!(out, "{op}");
-                self.write_literal(out, value);
+                if let Literal::PostfixUnaryOp { .. } = **value {
+                    // `-(-x)` isn't `--x`.
+                    write!(out, "(");
+                    self.write_literal(out, value);
+                    write!(out, ")");
+                } else {
+                    self.write_literal(out, value);
+                }
             }
             Literal::BinOp {
                 ref left,
-- 
2.43.0


From 563e542681bd241a6672640ffe3b4ad8cbd45f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:15 +0000
Subject: [PATCH 18/43] fix: print the minimum of an unsigned type, which has
 no macro

---
 src/bindgen/ir/constant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 5e085ee..2ab82bc 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -42,8 +42,14 @@ pub(crate) fn to_known_assoc_constant(associated_to: &Path, name: &str) -> Optio
         PrimitiveType::Integer {
             kind,
             signed,
-            zeroable: _,
+            zeroable,
         } => match kind {
+            // There's no UINTN_MIN in <stdint.h>.
+            IntKind::B8 | IntKind::B16 | IntKind::B32 | IntKind::B64
+                if !signed && name == "MIN" =>
+            {
+                return Some(if zeroable { "0" } else { "1" }.to_owned());
+            }
             IntKind::B8 => {
                 if signed {
                     "INT8"
-- 
2.43.0


From 2433ea0fb57f045783c0ba9dfc519d36dc9d977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:15 +0000
Subject: [PATCH 19/43] fix: validate the fields of struct literals in
 constants

---
 src/bindgen/ir/constant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 2ab82bc..3de89bf 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -240,7 +240,13 @@ impl Literal {
                 ..
             } => left.is_valid(bindings) && right.is_valid(bindings),
             Literal::FieldAccess { ref base, .. } => base.is_valid(bindings),
-            Literal::Struct { ref path, .. } => bindings.struct_exists(path),
+            Literal::Struct {
+                ref path,
+                ref fields,
+                ..
+            } => {
+                bindings.struct_exists(path) && fields.values().all(|f| f.value.is_valid(bindings))
+            }
             Literal::Cast { ref value, .. } => value.is_valid(bindings),
         }
     }
-- 
2.43.0


From 6cf2fb033379bc741d5f3cb3801fb2874f0001bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:16 +0000
Subject: [PATCH 20/43] fix: emit the types that constants cast to

---
 src/bindgen/ir/constant.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 3de89bf..002c961 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -140,6 +140,9 @@ impl Literal {
                 } => {
                     out.add(library, path);
                 }
+                Literal::Cast { ref ty, value: _ } => {
+                    ty.add_dependencies(library, out);
+                }
                 _ => {}
             }
             true
@@ -151,14 +154,14 @@ impl Literal {
         let mut has_dependencies = false;
         self.visit(&mut |lit| {
             has_dependencies = has_dependencies
-                || matches!(
-                    lit,
-                    Literal::Struct { .. }
-                        | Literal::Path {
-                            associated_to: Some(_),
-                            ..
-                        }
-                );
+                || match *lit {
+                    Literal::Struct { .. } => true,
+                    Literal::Path {
+                        ref associated_to, ..
+                    } => associated_to.is_some(),
+                    Literal::Cast { ref ty, .. } => !ty.is_primitive_or_ptr_primitive(),
+                    _ => false,
+                };
             !has_dependencies
         });
         has_dependencies
-- 
2.43.0


From 47068ef3b974f967e0d18496b577e0b3776358a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 21/43] fix: reject struct literals with a base expression

---
 src/bindgen/ir/constant.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 002c961..9fa74c8 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -488,8 +488,12 @@ impl Literal {
             syn::Expr::Struct(syn::ExprStruct {
                 ref path,
                 ref fields,
+                ref rest,
                 ..
             }) => {
+                if rest.is_some() {
+                    return Err(format!("Unsupported struct expression. {:?}", *expr));
+                }
                 let struct_name = path.segments[0].ident.unraw().to_string();
                 let mut field_map = IndexMap::<String, LiteralStructField>::default();
                 for field in fields {
-- 
2.43.0


From 3578ac8614bc1c0c4b3188f754dc9aedd152933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 22/43] fix: resolve references to enum variants renamed by a
 rule

---
 src/bindgen/ir/enumeration.rs | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index e5c2b8e..3922d5c 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -587,33 +587,34 @@ impl Item for Enum {
             self.variants = self
                 .variants
                 .iter()
-                .map(|variant| {
-                    EnumVariant::new(
-                        r.apply(
+                .map(|variant| EnumVariant {
+                    // References to the variant are looked up by its source name.
+                    name: variant.name.clone(),
+                    export_name: r
+                        .apply(
                             &variant.export_name,
                             IdentifierType::EnumVariant {
                                 prefix: &self.export_name,
                             },
                         )
                         .into_owned(),
-                        variant.discriminant.clone(),
-                        match variant.body {
-                            VariantBody::Empty(..) => variant.body.clone(),
-                            VariantBody::Body {
-                                ref name,
-                                ref body,
-                                inline,
-                                inline_casts,
-                            } => VariantBody::Body {
-                                name: r.apply(name, IdentifierType::StructMember).into_owned(),
-                                body: body.clone(),
-                                inline,
-                                inline_casts,
-                            },
+                    discriminant: variant.discriminant.clone(),
+                    body: match variant.body {
+                        VariantBody::Empty(..) => variant.body.clone(),
+                        VariantBody::Body {
+                            ref name,
+                            ref body,
+                            inline,
+                            inline_casts,
+                        } => VariantBody::Body {
+                            name: r.apply(name, IdentifierType::StructMember).into_owned(),
+                            body: body.clone(),
+                            inline,
+                            inline_casts,
                         },
-                        variant.cfg.clone(),
-                        variant.documentation.clone(),
-                    )
+                    },
+                    cfg: variant.cfg.clone(),
+                    documentation: variant.documentation.clone(),
                 })
                 .collect();
         }
-- 
2.43.0


From 2d8497d18def15f21a65dbca568307d9b98314be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 23/43] fix: refer to associated constants by the name they are
 defined with

---
 src/bindgen/bindings.rs                | 15 ++++++++
 src/bindgen/ir/constant.rs             | 51 +++++---------------------
 src/bindgen/ir/structure.rs            | 24 ++++++++++++
 src/bindgen/language_backend/clike.rs  | 13 +++----
 src/bindgen/language_backend/cython.rs |  4 ++
 5 files changed, 58 insertions(+), 49 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index c63d378..5ce4f46 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -137,6 +137,21 @@ impl Bindings {
         result
     }
 
+    /// Returns how the associated constant `name` of the struct at `path` should
+    /// be referenced in generated code. Returns `None` if the struct isn't known
+    /// or has no such constant.
+    pub fn associated_constant_reference(&self, path: &BindgenPath, name: &str) -> Option<String> {
+        let mut result = None;
+        self.struct_map
+            .for_items(&self.resolved_struct_path(path), |s| {
+                let mut constants = s.associated_constants.iter();
+                if result.is_none() && constants.any(|c| c.export_name == name) {
+                    result = Some(s.associated_constant_name(&self.config, name));
+                }
+            });
+        result
+    }
+
     pub fn struct_field_names(&self, path: &BindgenPath) -> Rc<Vec<String>> {
         let mut memos = self.struct_fileds_memo.borrow_mut();
         if let Some(memo) = memos.get(path) {
diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 9fa74c8..e33c41d 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -18,7 +18,6 @@ use crate::bindgen::ir::{
 };
 use crate::bindgen::language_backend::LanguageBackend;
 use crate::bindgen::library::Library;
-use crate::bindgen::rename::{IdentifierType, RenameRule};
 use crate::bindgen::writer::SourceWriter;
 use crate::bindgen::Bindings;
 
@@ -760,50 +759,20 @@ impl Constant {
             return;
         }
 
-        let associated_to_transparent = associated_to_struct.is_some_and(|s| s.is_transparent);
-
-        let in_body = associated_to_struct.is_some()
-            && config.language == Language::Cxx
-            && config.structure.associated_constants_in_body
-            && config.constant.allow_static_const
-            && !associated_to_transparent;
+        let in_body =
+            associated_to_struct.is_some_and(|s| s.has_associated_constants_in_body(config));
 
         let condition = self.cfg.to_condition(config);
         condition.write_before(config, out);
 
-        let name = if in_body {
-            Cow::Owned(format!(
-                "{}::{}",
-                associated_to_struct.unwrap().export_name(),
-                self.export_name(),
-            ))
-        } else if self.associated_to.is_none() {
-            Cow::Borrowed(self.export_name())
-        } else {
-            let associated_name = match associated_to_struct {
-                Some(s) => {
-                    let name = s.export_name();
-                    let rules = s
-                        .annotations
-                        .parse_atom::<RenameRule>("rename-associated-constant");
-                    let rules = rules
-                        .as_ref()
-                        .unwrap_or(&config.structure.rename_associated_constant);
-
-                    if let Some(r) = rules.not_none() {
-                        r.apply(name, IdentifierType::Type)
-                    } else {
-                        Cow::Borrowed(name)
-                    }
-                }
-                None => {
-                    let mut name = self.associated_to.as_ref().unwrap().name().to_owned();
-                    config.export.rename(&mut name);
-                    Cow::Owned(name)
-                }
-            };
-
-            Cow::Owned(format!("{}_{}", associated_name, self.export_name()))
+        let name = match (associated_to_struct, &self.associated_to) {
+            (Some(s), _) => Cow::Owned(s.associated_constant_name(config, self.export_name())),
+            (None, Some(associated_to)) => {
+                let mut name = associated_to.name().to_owned();
+                config.export.rename(&mut name);
+                Cow::Owned(format!("{}_{}", name, self.export_name()))
+            }
+            (None, None) => Cow::Borrowed(self.export_name()),
         };
 
         let mut value = &self.value;
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index 2b59575..fb38a08 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -61,6 +61,30 @@ impl Struct {
         self.associated_constants.push(c);
     }
 
+    /// Whether the associated constants are members of the generated struct.
+    pub fn has_associated_constants_in_body(&self, config: &Config) -> bool {
+        config.language == Language::Cxx
+            && config.structure.associated_constants_in_body
+            && config.constant.allow_static_const
+            && !self.is_transparent
+    }
+
+    /// The name of the associated constant `name` in generated code.
+    pub fn associated_constant_name(&self, config: &Config, name: &str) -> String {
+        if self.has_associated_constants_in_body(config) {
+            return format!("{}::{}", self.export_name(), name);
+        }
+
+        let rules = self
+            .annotations
+            .parse_atom::<RenameRule>("rename-associated-constant");
+        let rules = rules
+            .as_ref()
+            .unwrap_or(&config.structure.rename_associated_constant);
+        let associated_name = rules.apply(self.export_name(), IdentifierType::Type);
+        format!("{associated_name}_{name}")
+    }
+
     pub fn load(
         layout_config: &LayoutConfig,
         item: &syn::ItemStruct,
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 429976f..9cfbf0d 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -847,14 +847,11 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                     if let Some(variant) = out.bindings().enum_variant_reference(path, name) {
                         return write!(out, "{variant}");
                     }
-                    let path_separator = if self.config.language == Language::C {
-                        "_"
-                    } else if self.config.structure.associated_constants_in_body {
-                        "::"
-                    } else {
-                        "_"
-                    };
-                    write!(out, "{export_name}{path_separator}")
+                    if let Some(constant) = out.bindings().associated_constant_reference(path, name)
+                    {
+                        return write!(out, "{constant}");
+                    }
+                    write!(out, "{export_name}_")
                 }
                 write!(out, "{name}")
             }
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 050f2b7..69287ad 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -347,6 +347,10 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
                     if let Some(variant) = out.bindings().enum_variant_reference(path, name) {
                         return write!(out, "{variant}");
                     }
+                    if let Some(constant) = out.bindings().associated_constant_reference(path, name)
+                    {
+                        return write!(out, "{constant}");
+                    }
                     write!(out, "{export_name}_")
                 }
                 write!(out, "{name}")
-- 
2.43.0


From e168e696b8773c5c89ee5c94c77646a79a4855e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:23 +0000
Subject: [PATCH 24/43] fix: keep the renamed fields of struct literals in
 constants

---
 src/bindgen/bindings.rs                | 14 ++++++++------
 src/bindgen/ir/field.rs                |  9 +++++++++
 src/bindgen/ir/structure.rs            |  4 ++++
 src/bindgen/language_backend/clike.rs  |  8 ++++----
 src/bindgen/language_backend/cython.rs |  2 +-
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index 5ce4f46..d2e0182 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -31,7 +31,7 @@ pub struct Bindings {
     /// appear in constant literals.
     enum_map: ItemMap<Enum>,
     typedef_map: ItemMap<Typedef>,
-    struct_fileds_memo: RefCell<HashMap<BindgenPath, Rc<Vec<String>>>>,
+    struct_fileds_memo: RefCell<HashMap<BindgenPath, Rc<Vec<(String, String)>>>>,
     pub globals: Vec<Static>,
     pub constants: Vec<Constant>,
     pub items: Vec<ItemContainer>,
@@ -152,7 +152,9 @@ impl Bindings {
         result
     }
 
-    pub fn struct_field_names(&self, path: &BindgenPath) -> Rc<Vec<String>> {
+    /// The fields of a struct in order: their names in struct literals and in
+    /// generated code.
+    pub fn struct_field_names(&self, path: &BindgenPath) -> Rc<Vec<(String, String)>> {
         let mut memos = self.struct_fileds_memo.borrow_mut();
         if let Some(memo) = memos.get(path) {
             return memo.clone();
@@ -160,14 +162,14 @@ impl Bindings {
 
         let resolved_path = self.resolved_struct_path(path);
 
-        let mut fields = Vec::<String>::new();
+        let mut fields = Vec::<(String, String)>::new();
         self.struct_map.for_items(&resolved_path, |st| {
             let mut pos: usize = 0;
-            for field in &st.fields {
-                if let Some(found_pos) = fields.iter().position(|v| *v == field.name) {
+            for (field, key) in st.fields.iter().zip(&st.literal_field_names) {
+                if let Some(found_pos) = fields.iter().position(|v| v.0 == *key) {
                     pos = found_pos + 1;
                 } else {
-                    fields.insert(pos, field.name.clone());
+                    fields.insert(pos, (key.clone(), field.name.clone()));
                     pos += 1;
                 }
             }
diff --git a/src/bindgen/ir/field.rs b/src/bindgen/ir/field.rs
index 73019ee..bd73f5d 100644
--- a/src/bindgen/ir/field.rs
+++ b/src/bindgen/ir/field.rs
@@ -23,6 +23,15 @@ impl Field {
         }
     }
 
+    /// The name of the field in struct literals, given that it isn't renamed yet.
+    pub fn literal_name(&self) -> String {
+        if self.name.starts_with(|c: char| c.is_ascii_digit()) {
+            format!("_{}", self.name)
+        } else {
+            self.name.clone()
+        }
+    }
+
     pub fn load(field: &syn::Field, self_path: &Path) -> Result<Option<Field>, String> {
         Ok(if let Some(mut ty) = Type::load(&field.ty)? {
             ty.replace_self_with(self_path);
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index fb38a08..172aae2 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -27,6 +27,8 @@ pub struct Struct {
     pub export_name: String,
     pub generic_params: GenericParams,
     pub fields: Vec<Field>,
+    /// The names of the fields in struct literals, whatever the fields are renamed to.
+    pub literal_field_names: Vec<String>,
     /// Whether there's a tag field on the body of this struct. When this is
     /// true, is_enum_variant_body is also guaranteed to be true.
     pub has_tag_field: bool,
@@ -179,11 +181,13 @@ impl Struct {
         }
 
         let export_name = path.name().to_owned();
+        let literal_field_names = fields.iter().map(|field| field.literal_name()).collect();
         Self {
             path,
             export_name,
             generic_params,
             fields,
+            literal_field_names,
             has_tag_field,
             is_enum_variant_body,
             alignment,
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 9cfbf0d..822c6dc 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -913,7 +913,7 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                 }
                 // In C++, same order as defined is required.
                 let ordered_fields = out.bindings().struct_field_names(path);
-                for (i, ordered_key) in ordered_fields.iter().enumerate() {
+                for (i, (ordered_key, name)) in ordered_fields.iter().enumerate() {
                     if let Some(lit) = fields.get(ordered_key) {
                         let condition = lit.cfg.to_condition(self.config);
                         if is_constexpr {
@@ -922,7 +922,7 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                             condition.write_before(self.config, out);
                             // TODO: Some C++ versions (c++20?) now support designated
                             // initializers, consider generating them.
-                            write!(out, "/* .{ordered_key} = */ ");
+                            write!(out, "/* .{name} = */ ");
                             self.write_literal(out, &lit.value);
                             if i + 1 != ordered_fields.len() {
                                 write!(out, ",");
@@ -936,9 +936,9 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                             if self.config.language == Language::Cxx {
                                 // TODO: Some C++ versions (c++20?) now support designated
                                 // initializers, consider generating them.
-                                write!(out, "/* .{ordered_key} = */ ");
+                                write!(out, "/* .{name} = */ ");
                             } else {
-                                write!(out, ".{ordered_key} = ");
+                                write!(out, ".{name} = ");
                             }
                             self.write_literal(out, &lit.value);
                         }
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 69287ad..8aab08b 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -410,7 +410,7 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
                 let mut is_first_field = true;
                 // In C++, same order as defined is required.
                 let ordered_fields = out.bindings().struct_field_names(path);
-                for ordered_key in ordered_fields.iter() {
+                for (ordered_key, _) in ordered_fields.iter() {
                     if let Some(lit) = fields.get(ordered_key) {
                         if !is_first_field {
                             write!(out, ", ");
-- 
2.43.0


From 0866de4af20a3f14483610a8adc664a3a8c0db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:24 +0000
Subject: [PATCH 25/43] fix: escape non-printable characters in constants as C
 does

---
 src/bindgen/ir/constant.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index e33c41d..1e307b0 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -424,7 +424,11 @@ impl Literal {
                 match lit {
                     syn::Lit::Byte(ref value) => Ok(Literal::Expr(format!("{}", value.value()))),
                     syn::Lit::Char(ref value) => Ok(Literal::Expr(match value.value() as u32 {
-                        0..=255 => format!("'{}'", value.value().escape_default()),
+                        0..=127 if value.value().escape_default().len() <= 2 => {
+                            format!("'{}'", value.value().escape_default())
+                        }
+                        // Rust's \u{..} isn't valid in C, nor is \U below 0xA0.
+                        code @ 0..=0x9F => format!(r"U'\x{code:02X}'"),
                         other_code => format!(r"U'\U{other_code:08X}'"),
                     })),
                     syn::Lit::Int(ref value) => {
-- 
2.43.0


From df5786d4a216807b5998bf548a7130f0f9d25378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:59 +0000
Subject: [PATCH 26/43] fix: refer to raw identifiers in constants without r#

---
 src/bindgen/ir/constant.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 1e307b0..c5ad128 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -540,13 +540,13 @@ impl Literal {
                 Ok(match path.segments.len() {
                     1 => Literal::Path {
                         associated_to: None,
-                        name: path.segments[0].ident.to_string(),
+                        name: path.segments[0].ident.unraw().to_string(),
                     },
                     2 => {
-                        let struct_name = path.segments[0].ident.to_string();
+                        let struct_name = path.segments[0].ident.unraw().to_string();
                         Literal::Path {
                             associated_to: Some((Path::new(&struct_name), struct_name)),
-                            name: path.segments[1].ident.to_string(),
+                            name: path.segments[1].ident.unraw().to_string(),
                         }
                     }
                     _ => return Err(format!("Unsupported path expression. {path:?}")),
-- 
2.43.0


From d180dbaaccc342e609982d06d936844d2b1e0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:59 +0000
Subject: [PATCH 27/43] fix: print transparent structs inside constants as
 their field

---
 src/bindgen/language_backend/clike.rs  | 6 ++++++
 src/bindgen/language_backend/cython.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 822c6dc..2ec292d 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -896,6 +896,12 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                 fields,
                 path,
             } => {
+                if out.bindings().struct_is_transparent(path) {
+                    // A transparent struct is declared as its only field.
+                    if let Some(field) = fields.values().next() {
+                        return self.write_literal(out, &field.value);
+                    }
+                }
                 let allow_constexpr = self.config.constant.allow_constexpr && l.can_be_constexpr();
                 let is_constexpr = self.config.language == Language::Cxx
                     && (self.config.constant.allow_static_const || allow_constexpr);
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 8aab08b..a4eb7ce 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -404,6 +404,12 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
                 fields,
                 path,
             } => {
+                if out.bindings().struct_is_transparent(path) {
+                    // A transparent struct is declared as its only field.
+                    if let Some(field) = fields.values().next() {
+                        return self.write_literal(out, &field.value);
+                    }
+                }
                 write!(out, "<{export_name}>");
 
                 write!(out, "{{ ");
-- 
2.43.0


From 4bcc948bb7592857a6b6def3711db8c0e14b2501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:59 +0000
Subject: [PATCH 28/43] fix: keep constants written as macros on one line

With allow_constexpr but without allow_static_const, a constant with a pointer
cast becomes a macro. Struct literals inside it were nevertheless laid out over
several lines, since the layout was chosen for each struct literal on its own.
---
 src/bindgen/language_backend/clike.rs | 277 +++++++++++++-------------
 1 file changed, 144 insertions(+), 133 deletions(-)

diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 2ec292d..ae5580c 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -328,6 +328,146 @@ impl<'a> CLikeLanguageBackend<'a> {
             emit_op!("gte", ">=", "&&");
         }
     }
+
+    /// Writes a literal. Struct literals span several lines if `is_constexpr`,
+    /// that is unless they are part of a macro.
+    fn write_literal_part<W: Write>(
+        &mut self,
+        out: &mut SourceWriter<W>,
+        l: &Literal,
+        is_constexpr: bool,
+    ) {
+        match l {
+            Literal::Expr(v) => write!(out, "{v}"),
+            Literal::Array { items } => {
+                write!(out, "{{ ");
+                for item in items {
+                    self.write_literal_part(out, item, is_constexpr);
+                    write!(out, ", ");
+                }
+                write!(out, "}}");
+            }
+            Literal::Path {
+                ref associated_to,
+                ref name,
+            } => {
+                if let Some((ref path, ref export_name)) = associated_to {
+                    if let Some(known) = to_known_assoc_constant(path, name) {
+                        return write!(out, "{known}");
+                    }
+                    if let Some(variant) = out.bindings().enum_variant_reference(path, name) {
+                        return write!(out, "{variant}");
+                    }
+                    if let Some(constant) = out.bindings().associated_constant_reference(path, name)
+                    {
+                        return write!(out, "{constant}");
+                    }
+                    write!(out, "{export_name}_")
+                }
+                write!(out, "{name}")
+            }
+            Literal::FieldAccess {
+                ref base,
+                ref field,
+            } => {
+                write!(out, "(");
+                self.write_literal_part(out, base, is_constexpr);
+                write!(out, ").{field}");
+            }
+            Literal::PostfixUnaryOp { op, ref value } => {
+                write!(out, "{op}");
+                if let Literal::PostfixUnaryOp { .. } = **value {
+                    // `-(-x)` isn't `--x`.
+                    write!(out, "(");
+                    self.write_literal_part(out, value, is_constexpr);
+                    write!(out, ")");
+                } else {
+                    self.write_literal_part(out, value, is_constexpr);
+                }
+            }
+            Literal::BinOp {
+                ref left,
+                op,
+                ref right,
+            } => {
+                write!(out, "(");
+                self.write_literal_part(out, left, is_constexpr);
+                write!(out, " {op} ");
+                self.write_literal_part(out, right, is_constexpr);
+                write!(out, ")");
+            }
+            Literal::Cast { ref ty, ref value } => {
+                out.write("(");
+                self.write_type(out, ty);
+                out.write(")");
+                self.write_literal_part(out, value, is_constexpr);
+            }
+            Literal::Struct {
+                export_name,
+                fields,
+                path,
+            } => {
+                if out.bindings().struct_is_transparent(path) {
+                    // A transparent struct is declared as its only field.
+                    if let Some(field) = fields.values().next() {
+                        return self.write_literal_part(out, &field.value, is_constexpr);
+                    }
+                }
+                if self.config.language == Language::C {
+                    write!(out, "({export_name})");
+                } else {
+                    write!(out, "{export_name}");
+                }
+
+                write!(out, "{{");
+                if is_constexpr {
+                    out.push_tab();
+                } else {
+                    write!(out, " ");
+                }
+                // In C++, same order as defined is required.
+                let ordered_fields = out.bindings().struct_field_names(path);
+                for (i, (ordered_key, name)) in ordered_fields.iter().enumerate() {
+                    if let Some(lit) = fields.get(ordered_key) {
+                        let condition = lit.cfg.to_condition(self.config);
+                        if is_constexpr {
+                            out.new_line();
+
+                            condition.write_before(self.config, out);
+                            // TODO: Some C++ versions (c++20?) now support designated
+                            // initializers, consider generating them.
+                            write!(out, "/* .{name} = */ ");
+                            self.write_literal_part(out, &lit.value, is_constexpr);
+                            if i + 1 != ordered_fields.len() {
+                                write!(out, ",");
+                            }
+                            condition.write_after(self.config, out);
+                        } else {
+                            if i > 0 {
+                                write!(out, ", ");
+                            }
+
+                            if self.config.language == Language::Cxx {
+                                // TODO: Some C++ versions (c++20?) now support designated
+                                // initializers, consider generating them.
+                                write!(out, "/* .{name} = */ ");
+                            } else {
+                                write!(out, ".{name} = ");
+                            }
+                            self.write_literal_part(out, &lit.value, is_constexpr);
+                        }
+                    }
+                }
+                if is_constexpr {
+                    out.pop_tab();
+                    out.new_line();
+                } else {
+                    write!(out, " ");
+                }
+                write!(out, "}}");
+            }
+        }
+    }
 }
 
 impl LanguageBackend for CLikeLanguageBackend<'_> {
@@ -826,139 +966,10 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
     }
 
     fn write_literal<W: Write>(&mut self, out: &mut SourceWriter<W>, l: &Literal) {
-        match l {
-            Literal::Expr(v) => write!(out, "{v}"),
-            Literal::Array { items } => {
-                write!(out, "{{ ");
-                for item in items {
-                    self.write_literal(out, item);
-                    write!(out, ", ");
-                }
-                write!(out, "}}");
-            }
-            Literal::Path {
-                ref associated_to,
-                ref name,
-            } => {
-                if let Some((ref path, ref export_name)) = associated_to {
-                    if let Some(known) = to_known_assoc_constant(path, name) {
-                        return write!(out, "{known}");
-                    }
-                    if let Some(variant) = out.bindings().enum_variant_reference(path, name) {
-                        return write!(out, "{variant}");
-                    }
-                    if let Some(constant) = out.bindings().associated_constant_reference(path, name)
-                    {
-                        return write!(out, "{constant}");
-                    }
-                    write!(out, "{export_name}_")
-                }
-                write!(out, "{name}")
-            }
-            Literal::FieldAccess {
-                ref base,
-                ref field,
-            } => {
-                write!(out, "(");
-                self.write_literal(out, base);
-                write!(out, ").{field}");
-            }
-            Literal::PostfixUnaryOp { op, ref value } => {
-                write!(out, "{op}");
-                if let Literal::PostfixUnaryOp { .. } = **value {
-                    // `-(-x)` isn't `--x`.
-                    write!(out, "(");
-                    self.write_literal(out, value);
-                    write!(out, ")");
-                } else {
-                    self.write_literal(out, value);
-                }
-            }
-            Literal::BinOp {
-                ref left,
-                op,
-                ref right,
-            } => {
-                write!(out, "(");
-                self.write_literal(out, left);
-                write!(out, " {op} ");
-                self.write_literal(out, right);
-                write!(out, ")");
-            }
-            Literal::Cast { ref ty, ref value } => {
-                out.write("(");
-                self.write_type(out, ty);
-                out.write(")");
-                self.write_literal(out, value);
-            }
-            Literal::Struct {
-                export_name,
-                fields,
-                path,
-            } => {
-                if out.bindings().struct_is_transparent(path) {
-                    // A transparent struct is declared as its only field.
-                    if let Some(field) = fields.values().next() {
-                        return self.write_literal(out, &field.value);
-                    }
-                }
-                let allow_constexpr = self.config.constant.allow_constexpr && l.can_be_constexpr();
-                let is_constexpr = self.config.language == Language::Cxx
-                    && (self.config.constant.allow_static_const || allow_constexpr);
-                if self.config.language == Language::C {
-                    write!(out, "({export_name})");
-                } else {
-                    write!(out, "{export_name}");
-                }
-
-                write!(out, "{{");
-                if is_constexpr {
-                    out.push_tab();
-                } else {
-                    write!(out, " ");
-                }
-                // In C++, same order as defined is required.
-                let ordered_fields = out.bindings().struct_field_names(path);
-                for (i, (ordered_key, name)) in ordered_fields.iter().enumerate() {
-                    if let Some(lit) = fields.get(ordered_key) {
-                        let condition = lit.cfg.to_condition(self.config);
-                        if is_constexpr {
-                            out.new_line();
-
-                            condition.write_before(self.config, out);
-                            // TODO: Some C++ versions (c++20?) now support designated
-                            // initializers, consider generating them.
-                            write!(out, "/* .{name} = */ ");
-                            self.write_literal(out, &lit.value);
-                            if i + 1 != ordered_fields.len() {
-                                write!(out, ",");
-                            }
-                            condition.write_after(self.config, out);
-                        } else {
-                            if i > 0 {
-                                write!(out, ", ");
-                            }
-
-                            if self.config.language == Language::Cxx {
-                                // TODO: Some C++ versions (c++20?) now support designated
-                                // initializers, consider generating them.
-                                write!(out, "/* .{name} = */ ");
-                            } else {
-                                write!(out, ".{name} = ");
-                            }
-                            self.write_literal(out, &lit.value);
-                        }
-                    }
-                }
-                if is_constexpr {
-                    out.pop_tab();
-                    out.new_line();
-                } else {
-                    write!(out, " ");
-                }
-                write!(out, "}}");
-            }
-        }
+        let allow_constexpr = self.config.constant.allow_constexpr && l.can_be_constexpr();
+        let is_constexpr = self.config.language == Language::Cxx
+            && (self.config.constant.allow_static_const || allow_constexpr);
+        self.write_literal_part(out, l, is_constexpr);
     }
 
     fn write_globals<W: Write>(&mut self, out: &mut SourceWriter<W>, b: &Bindings) {
-- 
2.43.0


From 2f53f6e5e1b10d76823511f435371e8718ec4f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:03 +0000
Subject: [PATCH 29/43] fix: do not panic when tab_width is 0

The indentation was computed with a remainder by the tab width.
---
 src/bindgen/writer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/writer.rs b/src/bindgen/writer.rs
index 2b6d6bc..4ef3b7c 100644
--- a/src/bindgen/writer.rs
+++ b/src/bindgen/writer.rs
@@ -132,8 +132,13 @@ impl<'a, F: Write> SourceWriter<'a, F> {
     }
 
     pub fn push_tab(&mut self) {
-        let spaces = self.spaces() - (self.spaces() % self.bindings.config.tab_width)
-            + self.bindings.config.tab_width;
+        let tab_width = self.bindings.config.tab_width;
+        // A tab width of zero means no indentation.
+        let spaces = if tab_width == 0 {
+            self.spaces()
+        } else {
+            self.spaces() - (self.spaces() % tab_width) + tab_width
+        };
         self.spaces.push(spaces);
     }
 
-- 
2.43.0


From b06475ce877c8841b928cdbc4f661560e3cd1f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:45 +0000
Subject: [PATCH 30/43] fix: keep documentation inside its comment

The text `*/` ended a block comment, and a backslash at the end of a
`//` comment continued it over the declaration that follows.
---
 src/bindgen/language_backend/clike.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index ae5580c..6ad35e5 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -938,15 +938,21 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
         }
 
         for line in &d.doc_comment[..end] {
+            // A backslash at the end would continue the line, and with it a `//` comment.
+            let mut line = line.as_str();
+            if line.trim_end().ends_with('\\') {
+                line = line.trim_end_matches(|c: char| c == '\\' || c.is_whitespace());
+            }
             match style {
-                DocumentationStyle::C => out.write(""),
-                DocumentationStyle::Doxy => out.write(" *"),
-                DocumentationStyle::C99 => out.write("//"),
-                DocumentationStyle::Cxx => out.write("///"),
+                // The text must not end the comment.
+                DocumentationStyle::C => write!(out, "{}", line.replace("*/", "* /")),
+                DocumentationStyle::Doxy => {
+                    write!(out, "{}", format!(" *{line}").replace("*/", "* /"))
+                }
+                DocumentationStyle::C99 => write!(out, "//{line}"),
+                DocumentationStyle::Cxx => write!(out, "///{line}"),
                 DocumentationStyle::Auto => unreachable!(), // Auto case should always be covered
             }
-
-            write!(out, "{line}");
             out.new_line();
         }
 
-- 
2.43.0


From 38d2a2ba271c5843985d1fe45b439e81bb4501b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 31/43] fix: split documentation at carriage returns

Some compilers take a lone carriage return as the end of a line, which
put the rest of the text outside the comment.
---
 src/bindgen/utilities.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindgen/utilities.rs b/src/bindgen/utilities.rs
index 6c58b6d..23ffff2 100644
--- a/src/bindgen/utilities.rs
+++ b/src/bindgen/utilities.rs
@@ -430,6 +430,9 @@ impl SynAttributeHelpers for [syn::Attribute] {
 }
 
 fn split_doc_attr(input: &str) -> Vec<String> {
+    // A carriage return ends a line (and a comment) for some compilers.
+    let input = &input.replace("\r\n", "\n").replace('\r', "\n");
+
     if !input.contains('\n') {
         // This is a special case for single-line doc comments, which normally already contain a leading space
         // if it is desired.
-- 
2.43.0


From 7a811c5fa57f80de29c4999c5241fc97fa0c971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:35 +0000
Subject: [PATCH 32/43] fix: honour #[unsafe(export_name)] on statics

---
 src/bindgen/utilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindgen/utilities.rs b/src/bindgen/utilities.rs
index 23ffff2..0e95d2a 100644
--- a/src/bindgen/utilities.rs
+++ b/src/bindgen/utilities.rs
@@ -65,6 +65,7 @@ impl SynItemHelpers for syn::ItemStatic {
     fn exported_name(&self) -> Option<String> {
         self.attrs
             .attr_name_value_lookup("export_name")
+            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
             .or_else(|| {
                 if self.is_no_mangle() {
                     Some(self.ident.unraw().to_string())
-- 
2.43.0


From f42fb65d34ba19cd7ece0dfb2c7e8ac3901605e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:36 +0000
Subject: [PATCH 33/43] fix: keep the public associated constants after a
 private one

---
 src/bindgen/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 7f004d1..9268e0f 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -792,7 +792,7 @@ impl Parse {
             if let syn::Visibility::Public(_) = item.vis {
             } else {
                 warn!("Skip {}::{} - (not `pub`).", crate_name, item.ident);
-                return;
+                continue;
             }
 
             let path = Path::new(item.ident.unraw().to_string() + impl_path.name());
-- 
2.43.0


From a699e4e359cac551c96635d2bdf1dcb613ef3b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:37 +0000
Subject: [PATCH 34/43] fix: keep the cfg of an impl block on its functions and
 constants

---
 src/bindgen/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 9268e0f..2e38763 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -541,6 +541,7 @@ impl Parse {
                         impls_with_assoc_consts.push(item_impl);
                     }
 
+                    let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
                     if let syn::Type::Path(ref path) = *item_impl.self_ty {
                         if let Some(type_name) = path.path.get_ident() {
                             for method in item_impl.items.iter().filter_map(|item| match item {
@@ -553,7 +554,7 @@ impl Parse {
                                     config,
                                     binding_crate_name,
                                     crate_name,
-                                    mod_cfg,
+                                    impl_cfg.as_ref(),
                                     &Path::new(type_name.unraw().to_string()),
                                     method,
                                 )
@@ -584,6 +585,7 @@ impl Parse {
         mod_cfg: Option<&Cfg>,
         item_impl: &syn::ItemImpl,
     ) {
+        let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
         let associated_constants = item_impl.items.iter().filter_map(|item| match item {
             syn::ImplItem::Const(ref associated_constant)
                 if !associated_constant.should_skip_parsing() =>
@@ -594,7 +596,7 @@ impl Parse {
         });
         self.load_syn_assoc_consts(
             crate_name,
-            mod_cfg,
+            impl_cfg.as_ref(),
             &item_impl.self_ty,
             associated_constants,
         );
-- 
2.43.0


From 63e3ee5e7cb4a5b3dc4b2d098d617b4e5847ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:38 +0000
Subject: [PATCH 35/43] fix: skip ignored and test-only functions of extern
 blocks

---
 src/bindgen/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 2e38763..5b508b1 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -619,6 +619,9 @@ impl Parse {
         let mod_cfg = Cfg::append(mod_cfg, Cfg::load(&item.attrs));
         for foreign_item in &item.items {
             if let syn::ForeignItem::Fn(ref function) = *foreign_item {
+                if function.attrs.should_skip_parsing() {
+                    continue;
+                }
                 if !config
                     .parse
                     .should_generate_top_level_item(crate_name, binding_crate_name)
-- 
2.43.0


From 2031662372a58392dce5356eb5e47ad1fff64504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:39 +0000
Subject: [PATCH 36/43] fix: do not panic on types whose generics cannot be
 represented

---
 src/bindgen/parser.rs | 56 +++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 5b508b1..eebf7ce 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -925,9 +925,12 @@ impl Parse {
             }
             Err(msg) => {
                 info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
-                let path = Path::new(item.ident.unraw().to_string());
-                self.opaque_items.try_insert(
-                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
+                self.load_opaque(
+                    crate_name,
+                    mod_cfg,
+                    &item.ident,
+                    &item.generics,
+                    &item.attrs,
                 );
             }
         }
@@ -949,9 +952,12 @@ impl Parse {
             }
             Err(msg) => {
                 info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
-                let path = Path::new(item.ident.unraw().to_string());
-                self.opaque_items.try_insert(
-                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
+                self.load_opaque(
+                    crate_name,
+                    mod_cfg,
+                    &item.ident,
+                    &item.generics,
+                    &item.attrs,
                 );
             }
         }
@@ -972,9 +978,12 @@ impl Parse {
             }
             Err(msg) => {
                 info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
-                let path = Path::new(item.ident.unraw().to_string());
-                self.opaque_items.try_insert(
-                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
+                self.load_opaque(
+                    crate_name,
+                    mod_cfg,
+                    &item.ident,
+                    &item.generics,
+                    &item.attrs,
                 );
             }
         }
@@ -990,14 +999,37 @@ impl Parse {
             }
             Err(msg) => {
                 info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
-                let path = Path::new(item.ident.unraw().to_string());
-                self.opaque_items.try_insert(
-                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
+                self.load_opaque(
+                    crate_name,
+                    mod_cfg,
+                    &item.ident,
+                    &item.generics,
+                    &item.attrs,
                 );
             }
         }
     }
 
+    /// Loads a type that can't be represented as an opaque one
+    fn load_opaque(
+        &mut self,
+        crate_name: &str,
+        mod_cfg: Option<&Cfg>,
+        ident: &syn::Ident,
+        generics: &syn::Generics,
+        attrs: &[syn::Attribute],
+    ) {
+        let path = Path::new(ident.unraw().to_string());
+        match OpaqueItem::load(path, generics, attrs, mod_cfg) {
+            Ok(opaque) => {
+                self.opaque_items.try_insert(opaque);
+            }
+            Err(msg) => {
+                warn!("Skip {crate_name}::{ident} - ({msg}).");
+            }
+        }
+    }
+
     fn load_builtin_macro(
         &mut self,
         config: &Config,
-- 
2.43.0


From c2e539153e71f8ca4d2d3215425d29b27b50378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:01 +0000
Subject: [PATCH 37/43] fix: keep the cfg of a bitflags invocation

---
 src/bindgen/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index eebf7ce..b99bb83 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -1046,6 +1046,9 @@ impl Parse {
             return;
         }
 
+        let mod_cfg = Cfg::append(mod_cfg, Cfg::load(&item.attrs));
+        let mod_cfg = mod_cfg.as_ref();
+
         let bitflags = match bitflags::parse(item.mac.tokens.clone()) {
             Ok(bf) => bf,
             Err(e) => {
-- 
2.43.0


From 859556dc4195b0c033f083cc0fdbe35eb8504699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:40 +0000
Subject: [PATCH 38/43] fix: escape all special characters of paths in the
 depfile

---
 src/bindgen/bindings.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index d2e0182..1255d96 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -43,6 +43,28 @@ pub struct Bindings {
     pub package_version: String,
 }
 
+/// Escapes a path so that make reads it back as one file name, like compilers do.
+fn escape_depfile_path(path: &str) -> String {
+    let mut escaped = String::new();
+    let mut backslashes = 0;
+    for c in path.chars() {
+        match c {
+            // The backslashes in front of a blank must be doubled.
+            ' ' | '\t' => {
+                for _ in 0..=backslashes {
+                    escaped.push('\\');
+                }
+            }
+            '#' => escaped.push('\\'),
+            '$' => escaped.push('$'),
+            _ => {}
+        }
+        backslashes = if c == '\\' { backslashes + 1 } else { 0 };
+        escaped.push(c);
+    }
+    escaped
+}
+
 impl Bindings {
     #[allow(clippy::too_many_arguments)]
     pub(crate) fn new(
@@ -236,7 +258,7 @@ impl Bindings {
         // Sorting makes testing easier by ensuring the output is ordered.
         canon_source_files.sort_unstable();
 
-        // When writing the depfile we must escape whitespace in paths to avoid it being interpreted
+        // When writing the depfile we must escape paths to avoid e.g. whitespace being interpreted
         // as a seperator.
         // It is not clear how to otherwise _correctly_ replace whitespace in a non-unicode
         // compliant slice, without knowing the encoding, so we lossy convert such cases,
@@ -245,14 +267,14 @@ impl Bindings {
         write!(
             &mut depfile,
             "{}:",
-            canon_header_path.to_string_lossy().replace(' ', "\\ ")
+            escape_depfile_path(&canon_header_path.to_string_lossy())
         )
         .expect("Writing header name to depfile failed");
         canon_source_files.into_iter().for_each(|source_file| {
             // Add line-continue and line-break and then indent with 4 spaces.
             // This makes the output more human-readable.
             depfile.write_all(b" \\\n    ").unwrap();
-            let escaped_path = source_file.to_string_lossy().replace(' ', "\\ ");
+            let escaped_path = escape_depfile_path(&source_file.to_string_lossy());
             depfile.write_all(escaped_path.as_bytes()).unwrap();
         });
 
-- 
2.43.0


From a4eecd0348b2e2350c9d09697259b01d1271fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:26 +0000
Subject: [PATCH 39/43] fix: let #[path] take precedence over the default
 module files

---
 src/bindgen/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index b99bb83..e55dbd0 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -337,9 +337,12 @@ impl Parser<'_> {
                 let next_mod_path1 = submod_dir.join(next_mod_name.clone() + ".rs");
                 let next_mod_path2 = submod_dir.join(next_mod_name.clone()).join("mod.rs");
 
-                if next_mod_path1.exists() {
+                // A path attribute takes precedence over the default locations.
+                let has_path_attr = item.attrs.iter().any(|attr| attr.path().is_ident("path"));
+
+                if !has_path_attr && next_mod_path1.exists() {
                     self.parse_mod(pkg, next_mod_path1.as_path(), depth + 1)?;
-                } else if next_mod_path2.exists() {
+                } else if !has_path_attr && next_mod_path2.exists() {
                     self.parse_mod(pkg, next_mod_path2.as_path(), depth + 1)?;
                 } else {
                     // Last chance to find a module path
-- 
2.43.0


From abf37b38c5afacb3c6223f1daf2060b97a6758e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:27 +0000
Subject: [PATCH 40/43] fix: look up the modules of #[path] files next to them

---
 src/bindgen/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index e55dbd0..afd4a7d 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -378,7 +378,8 @@ impl Parser<'_> {
                                     } else {
                                         mod_dir
                                     };
-                                    self.parse_mod(pkg, &base.join(path_lit.value()), depth + 1)?;
+                                    // Such files are always "mod-rs" source files.
+                                    self.parse_mod(pkg, &base.join(path_lit.value()), 0)?;
                                     break;
                                 }
                                 _ => (),
-- 
2.43.0


From ebbc42e5aab8441eab8fe36f460411b95a2ed57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:18 +0000
Subject: [PATCH 41/43] fix: honour #[path] on inline modules

---
 src/bindgen/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index afd4a7d..751bc14 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -319,10 +319,18 @@ impl Parser<'_> {
             }
 
             if let Some((_, ref inline_items)) = item.content {
-                // TODO(emilio): This should use #[path] attribute if present,
-                // rather than next_mod_name.
-                let next_submod_dir = submod_dir.map(|dir| dir.join(&next_mod_name));
-                let next_mod_dir = mod_dir.map(|dir| dir.join(&next_mod_name));
+                let mut next_submod_dir = submod_dir.map(|dir| dir.join(&next_mod_name));
+                let mut next_mod_dir = mod_dir.map(|dir| dir.join(&next_mod_name));
+                if let Some(path) = item.attr_name_value_lookup("path") {
+                    // The path attribute names the directory of the inline module.
+                    let base = if is_inline && !is_in_mod_rs {
+                        submod_dir
+                    } else {
+                        mod_dir
+                    };
+                    next_submod_dir = base.map(|dir| dir.join(&path));
+                    next_mod_dir = next_submod_dir.clone();
+                }
                 self.process_mod(
                     pkg,
                     next_mod_dir.as_deref(),
-- 
2.43.0


From acc39bb20f2d8d3a36e4e89942b89e08a6cc808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 42/43] fix: do not add a pointer to a receiver whose type is
 spelled out

`self: &Foo` and `self: &mut Self` came out as pointers to pointers.
---
 src/bindgen/ir/function.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/bindgen/ir/function.rs b/src/bindgen/ir/function.rs
index e4bfb95..5ed79ad 100644
--- a/src/bindgen/ir/function.rs
+++ b/src/bindgen/ir/function.rs
@@ -223,19 +223,12 @@ trait SynFnArgHelpers {
 }
 
 fn gen_self_type(receiver: &syn::Receiver) -> Result<Type, String> {
-    let mut self_ty = Type::Path(GenericPath::self_path());
+    let self_ty = Type::Path(GenericPath::self_path());
 
     let is_const = match &receiver.kind {
         syn::ReceiverKind::Reference(_, _, mut_token) => mut_token.is_none(),
         // Custom self type
-        syn::ReceiverKind::Typed(_, ty) => {
-            self_ty = Type::load(ty)?.unwrap_or(self_ty);
-
-            match &**ty {
-                syn::Type::Reference(ref_ty) => ref_ty.mutability.is_none(),
-                _ => return Ok(self_ty),
-            }
-        }
+        syn::ReceiverKind::Typed(_, ty) => return Ok(Type::load(ty)?.unwrap_or(self_ty)),
         syn::ReceiverKind::Value => return Ok(self_ty),
         _ => return Err(String::from("Receiver is of an unsupported kind")),
     };
-- 
2.43.0


From 2b197b3a1eaff2366152b8757bccd913bb331ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 43/43] fix: print the body of a raw-named variant without r#

---
 src/bindgen/ir/enumeration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 3922d5c..7d7f150 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -167,7 +167,7 @@ impl EnumVariant {
         let body = match variant.fields {
             syn::Fields::Unit => VariantBody::Empty(annotations),
             syn::Fields::Named(ref fields) => {
-                let path = Path::new(format!("{}_Body", variant.ident));
+                let path = Path::new(format!("{}_Body", variant.ident.unraw()));
                 let name = body_rule
                     .apply(
                         &variant.ident.unraw().to_string(),
@@ -193,7 +193,7 @@ impl EnumVariant {
                 }
             }
             syn::Fields::Unnamed(ref fields) => {
-                let path = Path::new(format!("{}_Body", variant.ident));
+                let path = Path::new(format!("{}_Body", variant.ident.unraw()));
                 let name = body_rule
                     .apply(
                         &variant.ident.unraw().to_string(),
-- 
2.43.0

