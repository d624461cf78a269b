From 842d2dcd02ff7a40fbb57a2747ac47eac3b1e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 01/24] fix: run enum attribute callbacks for Java and refuse
 unknown enum attributes

---
 macroslib/src/java_jni/fenum.rs | 17 +++++++++--------
 macroslib/src/java_jni/mod.rs   |  4 +++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/macroslib/src/java_jni/fenum.rs b/macroslib/src/java_jni/fenum.rs
index 9a2d00b..09a00e0 100644
--- a/macroslib/src/java_jni/fenum.rs
+++ b/macroslib/src/java_jni/fenum.rs
@@ -6,10 +6,11 @@ use syn::{Ident, Type};
 
 use super::{
     java_class_full_name, java_class_name_to_jni, java_code::doc_comments_to_java_comments,
-    map_write_err, JavaContext,
+    JavaContext,
 };
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
+    extension::extend_foreign_enum,
     file_cache::FileWriteCache,
     typemap::{
         ast::{parse_ty_with_given_span, ForeignTypeName},
@@ -43,8 +44,7 @@ pub(in crate::java_jni) fn generate_enum(
         fenum.src_id,
     );
 
-    generate_java_code_for_enum(ctx, fenum)
-        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), err))?;
+    generate_java_code_for_enum(ctx, fenum)?;
     generate_rust_code_for_enum(ctx, fenum)?;
 
     let jint_rty = ctx.conv_map.ty_to_rust_type(&parse_type! { jint });
@@ -96,10 +96,7 @@ pub(in crate::java_jni) fn generate_enum(
     Ok(())
 }
 
-fn generate_java_code_for_enum(
-    ctx: &mut JavaContext,
-    fenum: &ForeignEnumInfo,
-) -> std::result::Result<(), String> {
+fn generate_java_code_for_enum(ctx: &mut JavaContext, fenum: &ForeignEnumInfo) -> Result<()> {
     let path = ctx.cfg.output_dir.join(format!("{}.java", fenum.name));
     let mut file = FileWriteCache::new(&path, ctx.generated_foreign_files);
     let enum_doc_comments = doc_comments_to_java_comments(&fenum.doc_comments, true);
@@ -171,7 +168,11 @@ public enum {enum_name} {{"#,
     )
     .expect(WRITE_TO_MEM_FAILED_MSG);
 
-    file.update_file_if_necessary().map_err(map_write_err)?;
+    let mut cnt = file.take_content();
+    extend_foreign_enum(fenum, &mut cnt, ctx.enum_ext_handlers)?;
+    file.replace_content(cnt);
+    file.update_file_if_necessary()
+        .map_err(DiagnosticError::map_any_err_to_our_err)?;
     Ok(())
 }
 
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index b557fc0..5ce8a3b 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -17,7 +17,7 @@ use syn::{spanned::Spanned, Type};
 
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
-    extension::{ClassExtHandlers, ExtHandlers, MethodExtHandlers},
+    extension::{ClassExtHandlers, EnumExtHandlers, ExtHandlers, MethodExtHandlers},
     file_cache::FileWriteCache,
     typemap::{
         ast::{
@@ -50,6 +50,7 @@ struct JavaContext<'a> {
     java_type_to_jni_sig_map: FxHashMap<SmolStr, SmolStr>,
     class_ext_handlers: &'a ClassExtHandlers,
     method_ext_handlers: &'a MethodExtHandlers,
+    enum_ext_handlers: &'a EnumExtHandlers,
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -190,6 +191,7 @@ impl LanguageGenerator for JavaConfig {
             java_type_to_jni_sig_map: rust_code::predefined_java_type_to_jni_sig(),
             class_ext_handlers: ext_handlers.class_ext_handlers,
             method_ext_handlers: ext_handlers.method_ext_handlers,
+            enum_ext_handlers: ext_handlers.enum_ext_handlers,
         };
         init(&mut ctx, code)?;
         for item in &items {
-- 
2.43.0


From 64b138cb328837dd4280c6c2b5a1a76ddc566362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 02/24] fix: a later conversion rule replaces an earlier one
 that waits for the language backend

---
 macroslib/src/typemap/merge.rs | 52 ++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/typemap/merge.rs b/macroslib/src/typemap/merge.rs
index b039c7b..bb6bbda 100644
--- a/macroslib/src/typemap/merge.rs
+++ b/macroslib/src/typemap/merge.rs
@@ -11,10 +11,10 @@ use crate::{
     error::{DiagnosticError, Result},
     source_registry::SourceId,
     typemap::{
-        ast::{ForeignTypeName, SpannedSmolStr},
+        ast::{normalize_type, ForeignTypeName, SpannedSmolStr},
         ty::{ForeignConversionIntermediate, ForeignTypeS, ForeignTypesStorage},
         typemap_macro::{FTypeLeftRightPair, ModuleName, TypeMapConvRuleInfo},
-        TypeConvEdge, TypeMap,
+        TypeConvCode, TypeConvEdge, TypeMap,
     },
 };
 
@@ -42,6 +42,16 @@ impl TypeMap {
         let mut new_node_to_our_map = FxHashMap::<NodeIndex, NodeIndex>::default();
         add_new_nodes(&new_data, self, &mut new_node_to_our_map);
         add_new_edges(&new_data, self, &new_node_to_our_map);
+        for edge in new_data.conv_graph.raw_edges() {
+            if edge.weight.dependency.borrow().is_none() {
+                rewrite_not_merged_rules(
+                    &mut self.not_merged_data,
+                    &new_data.conv_graph[edge.source()].normalized_name,
+                    &new_data.conv_graph[edge.target()].normalized_name,
+                    &edge.weight.code,
+                );
+            }
+        }
         let TypeMap {
             ftypes_storage: new_ftypes_storage,
             generic_edges: mut new_generic_edges,
@@ -123,6 +133,12 @@ impl TypeMap {
                 .graph_idx;
             let to_ty = self.find_or_alloc_rust_type(&right_ty, src_id).graph_idx;
 
+            rewrite_not_merged_rules(
+                &mut self.not_merged_data,
+                &self.conv_graph[from_ty].normalized_name,
+                &self.conv_graph[to_ty].normalized_name,
+                &code,
+            );
             self.conv_graph
                 .update_edge(from_ty, to_ty, TypeConvEdge::new(code, None));
             rtype_left_to_right = Some((from_ty, to_ty));
@@ -146,6 +162,12 @@ impl TypeMap {
                 .find_or_alloc_rust_type(&rule.left_ty, src_id)
                 .graph_idx;
             let from_ty = self.find_or_alloc_rust_type(&right_ty, src_id).graph_idx;
+            rewrite_not_merged_rules(
+                &mut self.not_merged_data,
+                &self.conv_graph[from_ty].normalized_name,
+                &self.conv_graph[to_ty].normalized_name,
+                &code,
+            );
             self.conv_graph
                 .update_edge(from_ty, to_ty, TypeConvEdge::new(code, None));
             rtype_right_to_left = Some((from_ty, to_ty));
@@ -408,6 +430,32 @@ fn add_new_edges(
     }
 }
 
+/// Rules from `not_merged_data` go to the conversion graph after all other rules,
+/// so the code of rules that were given before has to be replaced with the newer one
+fn rewrite_not_merged_rules(
+    not_merged_data: &mut [TypeMapConvRuleInfo],
+    from: &str,
+    to: &str,
+    code: &TypeConvCode,
+) {
+    for ri in not_merged_data {
+        if let Some(rule) = ri.rtype_left_to_right.as_mut() {
+            if let (Some(right_ty), Some(rule_code)) = (&rule.right_ty, rule.code.as_mut()) {
+                if normalize_type(&rule.left_ty) == from && normalize_type(right_ty) == to {
+                    *rule_code = code.clone();
+                }
+            }
+        }
+        if let Some(rule) = ri.rtype_right_to_left.as_mut() {
+            if let (Some(right_ty), Some(rule_code)) = (&rule.right_ty, rule.code.as_mut()) {
+                if normalize_type(right_ty) == from && normalize_type(&rule.left_ty) == to {
+                    *rule_code = code.clone();
+                }
+            }
+        }
+    }
+}
+
 fn add_new_ftypes(
     new_ftypes_storage: ForeignTypesStorage,
     data: &mut TypeMap,
-- 
2.43.0


From 287a4324e7ef15966c7a569d0576abffd2e2a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 03/24] fix: convert a returned mutable slice of foreign class
 to a mutable pointer

---
 macroslib/src/cpp/cpp-include.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index b7306a4..635f563 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -813,7 +813,7 @@ foreign_typemap!(
 foreign_typemap!(
     ($p:r_type) <T: SwigForeignClass> &mut [T] => CRustObjectMutSlice {
         $out = CRustObjectMutSlice {
-            data: $p.as_ptr() as *const ::std::os::raw::c_void,
+            data: $p.as_mut_ptr() as *mut ::std::os::raw::c_void,
             len: $p.len(),
             step: ::std::mem::size_of::<swig_subst_type!(T)>(),
         };
-- 
2.43.0


From 0521586eb61951151d775122dfad8c5181a6f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 04/24] fix: signed arithmetic and operator[] of the foreign
 class slice iterator in C++

---
 macroslib/src/cpp/rust_foreign_slice_iter.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_iter.hpp b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
index a1e33cf..5db9a7f 100644
--- a/macroslib/src/cpp/rust_foreign_slice_iter.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
@@ -58,32 +58,32 @@ public:
     /*@{*/
     T operator[](ptrdiff_t n) const noexcept
     {
-        auto p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) + n * static_cast<ptrdiff_t>(this->step);
         auto elem_ptr = static_cast<const CForeignType *>(p);
         return T{ elem_ptr };
     }
 
     RustForeignSliceIterator &operator+=(ptrdiff_t n) noexcept
     {
-        this->ptr = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        this->ptr = static_cast<const uint8_t *>(this->ptr) + n * static_cast<ptrdiff_t>(this->step);
         return *this;
     }
 
     RustForeignSliceIterator operator+(ptrdiff_t n) const noexcept
     {
-        const void *p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) + n * static_cast<ptrdiff_t>(this->step);
         return RustForeignSliceIterator(p, this->step);
     }
 
     RustForeignSliceIterator &operator-=(ptrdiff_t n) noexcept
     {
-        this->ptr = static_cast<const uint8_t *>(this->ptr) - n * this->step;
+        this->ptr = static_cast<const uint8_t *>(this->ptr) - n * static_cast<ptrdiff_t>(this->step);
         return *this;
     }
 
     RustForeignSliceIterator operator-(ptrdiff_t n) const noexcept
     {
-        const void *p = static_cast<const uint8_t *>(this->ptr) - n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) - n * static_cast<ptrdiff_t>(this->step);
         return RustForeignSliceIterator(p, this->step);
     }
 
@@ -94,7 +94,7 @@ public:
             = static_cast<const uint8_t *>(this->ptr) - static_cast<const uint8_t *>(o.ptr);
         // if container empty step may be 0, to prevent div by 0
         if (diff != 0) {
-            return diff / this->step;
+            return diff / static_cast<ptrdiff_t>(this->step);
         }
         else {
             return 0;
-- 
2.43.0


From 8acf523b8231d35571ad4ec1b69ceb402b608548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 05/24] fix: copy of a default constructed or moved-from
 RustString in C++

---
 macroslib/src/cpp/cpp-include.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 635f563..e5a5cd4 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -458,17 +458,21 @@ public:
     }
     RustString() noexcept { reset(*this); }
     RustString(const RustString &o) noexcept
-        : RustString(crust_string_clone(o))
     {
+        reset(*this);
+        *this = o;
     }
     RustString &operator=(const RustString &o) noexcept
     {
         if (this != &o) {
             free_mem();
-            auto copy = crust_string_clone(o);
-            data = copy.data;
-            len = copy.len;
-            capacity = copy.capacity;
+            // default constructed and moved-from strings hold no rust object
+            if (o.data != nullptr) {
+                auto copy = crust_string_clone(o);
+                data = copy.data;
+                len = copy.len;
+                capacity = copy.capacity;
+            }
         }
         return *this;
     }
-- 
2.43.0


From 04067399f3077ae03c291f239bcb7a0d1878e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 06/24] fix: accept an empty C++ slice whose data pointer is
 null

---
 macroslib/src/cpp/cpp-include.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index e5a5cd4..d0d628f 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -856,7 +856,7 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &[T] <= CRustSlice!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts($p.data, $p.len) };
+        $out = if $p.len == 0 { &[] } else { unsafe { ::std::slice::from_raw_parts($p.data, $p.len) } };
     };
     ($p:f_type, req_modules = ["\"CRustSlice!().h\""]) => "RustSlice<const swig_f_type!(T)>"
         "RustSlice<const swig_f_type!(T)>{$p.data, $p.len}";
@@ -889,7 +889,7 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &mut [T] <= CRustSliceMut!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) };
+        $out = if $p.len == 0 { &mut [] } else { unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) } };
     };
     ($p:f_type, req_modules = ["\"CRustSliceMut!().h\""]) => "RustSlice<swig_f_type!(T)>"
         "RustSlice<swig_f_type!(T)>{$p.data, $p.len}";
-- 
2.43.0


From 9166182bc5d42665c8e40cea0ea4a45c8e6b8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 07/24] fix: begin() and end() of a non-const RustVec in C++

---
 macroslib/src/cpp/rust_vec_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_vec_impl.hpp b/macroslib/src/cpp/rust_vec_impl.hpp
index 2a4f667..323dee4 100644
--- a/macroslib/src/cpp/rust_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_vec_impl.hpp
@@ -48,9 +48,9 @@ public:
     size_t size() const noexcept { return this->len; }
     bool empty() const noexcept { return this->len == 0; }
     const value_type &operator[](size_t i) const noexcept { return this->data[i]; }
-    iterator begin() noexcept { return this->data; }
+    iterator begin() noexcept { return const_cast<iterator>(this->data); }
     const_iterator begin() const noexcept { return this->data; }
-    iterator end() noexcept { return this->data + this->len; }
+    iterator end() noexcept { return const_cast<iterator>(this->data + this->len); }
     const_iterator end() const noexcept { return this->data + this->len; }
     void clear() noexcept { free_mem(); }
     CContainerType release() noexcept
-- 
2.43.0


From 24f16ac699c568f0b132f4f4223498ec031cc843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 08/24] fix: default constructed and moved-from C++ slices of
 foreign class are valid empty Rust slices

---
 macroslib/src/cpp/rust_foreign_slice_impl.hpp | 12 +++++++++++-
 macroslib/src/cpp/rust_foreign_vec_impl.hpp   |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_impl.hpp b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
index 4c07b84..fd36169 100644
--- a/macroslib/src/cpp/rust_foreign_slice_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
@@ -1,8 +1,17 @@
 #pragma once
 
+#include <cstdint>
+
 #include "rust_foreign_slice_iter.hpp"
 
 namespace RUST_SWIG_USER_NAMESPACE {
+
+namespace internal {
+    // Rust uses NonNull::dangling for data of empty containers, the alignment of Rust's type is
+    // unknown here, so take value that suits any of them
+    constexpr uintptr_t FOREIGN_DANGLING = 4096;
+}
+
 template <class ForeignClassRef, typename CContainerType>
 class RustForeignSlice final : public CContainerType {
 public:
@@ -70,7 +79,8 @@ private:
     {
         this->step = 0;
         this->len = 0;
-        this->data = nullptr;
+        // Rust slices are never null, even if they are empty
+        this->data = reinterpret_cast<void *>(internal::FOREIGN_DANGLING);
     }
 };
 
diff --git a/macroslib/src/cpp/rust_foreign_vec_impl.hpp b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
index c96e5ad..900fb24 100644
--- a/macroslib/src/cpp/rust_foreign_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
@@ -115,7 +115,7 @@ private:
     static void reset(RustForeignVec &o) noexcept
     {
         // Rust Vec::new uses NonNull::danling with similar value
-        o.data = reinterpret_cast<value_type *>(std::alignment_of<value_type>::value);
+        o.data = reinterpret_cast<void *>(internal::FOREIGN_DANGLING);
         o.len = 0;
         o.capacity = 0;
     }
-- 
2.43.0


From c5cea3c5ab2406d44bac3eea6bc7bdeafdaaf791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 09/24] fix: tuples of three elements as arguments from C++

---
 macroslib/src/cpp/cpp-include.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index d0d628f..fba5f67 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -357,9 +357,9 @@ foreign_typemap!(
                            swig_foreign_from_i_type!(T3, $p.third))"#;
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) <= "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
        r#"swig_f_type!(CRustTuple3!()) {
-               swig_foreign_to_i_type!(T1, $p.first),
-               swig_foreign_to_i_type!(T2, $p.second),
-               swig_foreign_to_i_type!(T3, $p.third),
+               swig_foreign_to_i_type!(T1, std::get<0>($p)),
+               swig_foreign_to_i_type!(T2, std::get<1>($p)),
+               swig_foreign_to_i_type!(T3, std::get<2>($p)),
         }"#;
 );
 
-- 
2.43.0


From 44d88586aa3e6efcb7155b6d2de2e3d998e08cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 10/24] fix: Java wrappers in arrays and callback arguments
 were never finalized

They were created by AllocObject alone, which runs no constructor, so JVM
did not register them for finalization and Rust objects leaked.
---
 macroslib/src/java_jni/jni-include.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 9a7730c..5e4349d 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -322,6 +322,26 @@ fn jni_throw_exception(env: *mut JNIEnv, message: &str) {
     jni_throw(env, exception_class, message)
 }
 
+/// `AllocObject` does not run any constructor, while JVM may register object
+/// for finalization during execution of constructor of `java.lang.Object`
+#[allow(dead_code)]
+fn jni_alloc_object(env: *mut JNIEnv, jcls: jclass) -> jobject {
+    let object_class: jclass = swig_jni_find_class!(JAVA_LANG_OBJECT, "java/lang/Object");
+    assert!(!object_class.is_null());
+    let object_init: jmethodID =
+        swig_jni_get_method_id!(JAVA_LANG_OBJECT_INIT, JAVA_LANG_OBJECT, "<init>", "()V");
+    assert!(!object_init.is_null());
+    unsafe {
+        let jobj: jobject = (**env).AllocObject.unwrap()(env, jcls);
+        assert!(!jobj.is_null(), "jni_alloc_object: AllocObject failed");
+        (**env).CallNonvirtualVoidMethod.unwrap()(env, jobj, object_class, object_init);
+        if (**env).ExceptionCheck.unwrap()(env) != 0 {
+            panic!("jni_alloc_object: java.lang.Object constructor failed: catch exception");
+        }
+        jobj
+    }
+}
+
 #[allow(dead_code)]
 fn object_to_jobject<T: SwigForeignClass>(env: *mut JNIEnv, obj: T) -> jobject {
     let jcls = <T>::jni_class();
@@ -329,8 +349,7 @@ fn object_to_jobject<T: SwigForeignClass>(env: *mut JNIEnv, obj: T) -> jobject {
     let field_id = <T>::jni_class_pointer_field();
     assert!(!field_id.is_null());
 
-    let jobj: jobject = unsafe { (**env).AllocObject.unwrap()(env, jcls) };
-    assert!(!jobj.is_null(), "object_to_jobject: AllocObject failed");
+    let jobj: jobject = jni_alloc_object(env, jcls);
 
     let ret: jlong = <T>::box_object(obj);
     unsafe {
@@ -405,8 +424,7 @@ fn vec_of_objects_to_jobject_array<T: SwigForeignClass>(
     assert!(!field_id.is_null());
 
     for (i, r_obj) in arr.drain(..).enumerate() {
-        let jobj: jobject = unsafe { (**env).AllocObject.unwrap()(env, jcls) };
-        assert!(!jobj.is_null());
+        let jobj: jobject = jni_alloc_object(env, jcls);
 
         let r_obj: jlong = <T>::box_object(r_obj);
         unsafe {
-- 
2.43.0


From fe0c92a80d6f8c2f89c2f285fc7d3cd189314364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 11/24] fix: message of a Java exception with a zero or
 supplementary character

JNI ThrowNew wants modified UTF-8: a zero character in the error text
aborted the process, supplementary characters arrived garbled.
---
 macroslib/src/java_jni/jni-include.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 5e4349d..cb2630a 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -305,7 +305,22 @@ impl Drop for JavaCallback {
 
 #[allow(dead_code)]
 fn jni_throw(env: *mut JNIEnv, ex_class: jclass, message: &str) {
-    let c_message = ::std::ffi::CString::new(message).unwrap();
+    // JNI wants "modified UTF-8": no zero bytes, surrogate pairs instead of 4-byte sequences
+    let mut utf8 = Vec::<u8>::with_capacity(message.len());
+    for ch in message.encode_utf16() {
+        match ch {
+            0x0001..=0x007F => utf8.push(ch as u8),
+            0x0000 | 0x0080..=0x07FF => {
+                utf8.extend_from_slice(&[0xC0 | (ch >> 6) as u8, 0x80 | (ch & 0x3F) as u8])
+            }
+            _ => utf8.extend_from_slice(&[
+                0xE0 | (ch >> 12) as u8,
+                0x80 | ((ch >> 6) & 0x3F) as u8,
+                0x80 | (ch & 0x3F) as u8,
+            ]),
+        }
+    }
+    let c_message = ::std::ffi::CString::new(utf8).unwrap();
     let res = unsafe { (**env).ThrowNew.unwrap()(env, ex_class, c_message.as_ptr()) };
     if res != 0 {
         log::error!(
-- 
2.43.0


From 49e6fd57c8e1bdbcf9830a353d3a2e27ea080e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 12/24] fix: signatures of boxed Java types end with ";"

An overloaded method with an Option<i32> (i64, f64, ..) argument was exported
under a name which the JVM never looks up.
---
 macroslib/src/java_jni/rust_code.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 838864a..9d34fb1 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -19,12 +19,12 @@ use crate::{
 pub(in crate::java_jni) fn predefined_java_type_to_jni_sig() -> FxHashMap<SmolStr, SmolStr> {
     let mut m = FxHashMap::default();
     m.insert("String".into(), "Ljava.lang.String;".into());
-    m.insert("Byte".into(), "Ljava.lang.Byte".into());
-    m.insert("Short".into(), "Ljava.lang.Short".into());
-    m.insert("Integer".into(), "Ljava.lang.Integer".into());
-    m.insert("Long".into(), "Ljava.lang.Long".into());
-    m.insert("Float".into(), "Ljava.lang.Float".into());
-    m.insert("Double".into(), "Ljava.lang.Double".into());
+    m.insert("Byte".into(), "Ljava.lang.Byte;".into());
+    m.insert("Short".into(), "Ljava.lang.Short;".into());
+    m.insert("Integer".into(), "Ljava.lang.Integer;".into());
+    m.insert("Long".into(), "Ljava.lang.Long;".into());
+    m.insert("Float".into(), "Ljava.lang.Float;".into());
+    m.insert("Double".into(), "Ljava.lang.Double;".into());
     m.insert("boolean".into(), "Z".into());
     m.insert("byte".into(), "B".into());
     m.insert("char".into(), "C".into());
-- 
2.43.0


From 723c9e5a23af0df692b76a64645bf124c1726dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:24 +0000
Subject: [PATCH 13/24] fix: count the native method of destructor among
 overloads of "do_delete"

A class with a method "delete" which has arguments got two functions
"Java_.._do_1delete".
---
 macroslib/src/java_jni/fclass.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index 533524f..b6b22d0 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -512,6 +512,14 @@ fn generate_rust_code(
         let val_ref = gen_fnames.entry(method_name(method, f_method));
         *val_ref.or_insert(0) += 1;
     }
+    if class
+        .methods
+        .iter()
+        .any(|m| m.variant == MethodVariant::Constructor)
+    {
+        // the native method of destructor
+        *gen_fnames.entry("do_delete".into()).or_insert(0) += 1;
+    }
 
     let dummy_ty = parse_type! { () };
     let dummy_rust_ty = ctx.conv_map.find_or_alloc_rust_type_no_src_id(&dummy_ty);
@@ -724,7 +732,7 @@ May be you need to use `private constructor = empty;` syntax?",
                     annotation: None,
                 }],
             },
-            false,
+            gen_fnames["do_delete"] > 1,
         )?;
         let code = format!(
             r#"
-- 
2.43.0


From 65efcce5dbf2d6e45899830022714b514a4a6204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:14 +0000
Subject: [PATCH 14/24] fix: C callback struct with an argument named "opaque"

---
 macroslib/src/cpp/finterface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/finterface.rs b/macroslib/src/cpp/finterface.rs
index fefd8bc..87e3ccc 100644
--- a/macroslib/src/cpp/finterface.rs
+++ b/macroslib/src/cpp/finterface.rs
@@ -433,7 +433,7 @@ struct C_{interface_name} {{
         writeln!(
             file_c,
             r#"{doc_comments}
-    {c_ret_type} (*{method_name})({single_args_with_types}void *opaque);"#,
+    {c_ret_type} (*{method_name})({single_args_with_types}void *{opaque_name});"#,
             method_name = method.name,
             doc_comments = cpp_code::doc_comments_to_c_comments(&method.doc_comments, false),
             single_args_with_types = cpp_code::c_generate_args_with_types(
-- 
2.43.0


From c4ed0de5adb9be72eabfc97b1e2add91b0e20252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 15/24] fix: a later foreign part of conversion rule replaces
 an earlier one that waits for the language backend

---
 macroslib/src/typemap/merge.rs | 64 +++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/typemap/merge.rs b/macroslib/src/typemap/merge.rs
index bb6bbda..6bd6240 100644
--- a/macroslib/src/typemap/merge.rs
+++ b/macroslib/src/typemap/merge.rs
@@ -2,7 +2,7 @@ use crate::typemap::ty::ForeignConversionRule;
 use std::{convert::TryInto, mem, rc::Rc};
 
 use log::{debug, error, info};
-use petgraph::graph::NodeIndex;
+use petgraph::{graph::NodeIndex, Direction};
 use rustc_hash::FxHashMap;
 use smol_str::SmolStr;
 use syn::spanned::Spanned;
@@ -52,6 +52,22 @@ impl TypeMap {
                 );
             }
         }
+        for ftype in new_data.ftypes_storage.iter() {
+            for (dir, rule) in [
+                (Direction::Outgoing, &ftype.into_from_rust),
+                (Direction::Incoming, &ftype.from_into_rust),
+            ] {
+                if let Some(rule) = rule {
+                    forget_not_merged_ftype_rules(
+                        &mut self.not_merged_data,
+                        id_of_code,
+                        ftype.name.value(),
+                        &new_data.conv_graph[rule.rust_ty].normalized_name,
+                        dir,
+                    );
+                }
+            }
+        }
         let TypeMap {
             ftypes_storage: new_ftypes_storage,
             generic_edges: mut new_generic_edges,
@@ -313,6 +329,21 @@ impl TypeMap {
             }
         }
 
+        for (dir, ft_rule) in [
+            (Direction::Outgoing, &ft_into_from_rust),
+            (Direction::Incoming, &ft_from_into_rust),
+        ] {
+            if let Some((ft, rule)) = ft_rule {
+                forget_not_merged_ftype_rules(
+                    &mut self.not_merged_data,
+                    src_id,
+                    ft.name.value(),
+                    &self.conv_graph[rule.rust_ty].normalized_name,
+                    dir,
+                );
+            }
+        }
+
         match (ft_into_from_rust, ft_from_into_rust) {
             (Some((ft1, into_from_rust)), Some((ft2, from_into_rust))) => {
                 if ft1 != ft2 {
@@ -456,6 +487,37 @@ fn rewrite_not_merged_rules(
     }
 }
 
+/// The same for `f_type` rules: the newer one is already part of foreign types storage
+fn forget_not_merged_ftype_rules(
+    not_merged_data: &mut [TypeMapConvRuleInfo],
+    src_id: SourceId,
+    ftype_name: &str,
+    rust_ty: &str,
+    direction: Direction,
+) {
+    for ri in not_merged_data {
+        if ri.src_id == src_id {
+            continue;
+        }
+        let (rtype_rule, ftype_rules) = match direction {
+            Direction::Outgoing => (&ri.rtype_left_to_right, &mut ri.ftype_left_to_right),
+            Direction::Incoming => (&ri.rtype_right_to_left, &mut ri.ftype_right_to_left),
+        };
+        let (left_ty, right_ty) = match rtype_rule {
+            Some(rule) => (&rule.left_ty, &rule.right_ty),
+            None => continue,
+        };
+        ftype_rules.retain(|rule| {
+            let rule_ty = match (&rule.code, right_ty) {
+                (None, Some(right_ty)) => right_ty,
+                _ => left_ty,
+            };
+            !matches!(&rule.left_right_ty, FTypeLeftRightPair::OnlyRight(ft) if ft.name.value() == ftype_name)
+                || normalize_type(rule_ty) != rust_ty
+        });
+    }
+}
+
 fn add_new_ftypes(
     new_ftypes_storage: ForeignTypesStorage,
     data: &mut TypeMap,
-- 
2.43.0


From c66df50503e233343d6537b52686a3f38d4e3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:58 +0000
Subject: [PATCH 16/24] fix: tuples in C++ overwrote each other and arguments
 with names p0, p1, p2

---
 macroslib/src/cpp/cpp-include.rs       | 20 +++++++++++------
 macroslib/src/typemap/typemap_macro.rs | 31 ++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index fba5f67..1888222 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -312,9 +312,12 @@ foreign_typemap!(
        };
    };
    ($p:r_type) <T1, T2> (T1, T2) <= CRustPair!() {
-       swig_from_i_type_to_rust!(T1, $p.first, p0)
-       swig_from_i_type_to_rust!(T2, $p.second, p1)
-       $out = (p0, p1);
+       $out = {
+           let tuple = $p;
+           swig_from_i_type_to_rust!(T1, tuple.first, p0)
+           swig_from_i_type_to_rust!(T2, tuple.second, p1)
+           (p0, p1)
+       };
    };
    ($p:f_type, req_modules = ["\"CRustPairModule!().h\"", "<utility>"]) => "std::pair<swig_f_type!(T1), swig_f_type!(T2)>"
            "std::make_pair(swig_foreign_from_i_type!(T1, $p.first), swig_foreign_from_i_type!(T2, $p.second))";
@@ -346,10 +349,13 @@ foreign_typemap!(
        };
    };
    ($p:r_type) <T1, T2, T3> (T1, T2, T3) <= CRustTuple3!() {
-       swig_from_i_type_to_rust!(T1, $p.first, p0)
-       swig_from_i_type_to_rust!(T2, $p.second, p1)
-       swig_from_i_type_to_rust!(T3, $p.third, p2)
-       $out = (p0, p1, p2);
+       $out = {
+           let tuple = $p;
+           swig_from_i_type_to_rust!(T1, tuple.first, p0)
+           swig_from_i_type_to_rust!(T2, tuple.second, p1)
+           swig_from_i_type_to_rust!(T3, tuple.third, p2)
+           (p0, p1, p2)
+       };
    };
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) => "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
        r#"std::make_tuple(swig_foreign_from_i_type!(T1, $p.first),
diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index ac3c5db..82b2bfc 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -4,7 +4,7 @@ mod tests;
 
 use log::debug;
 use petgraph::Direction;
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Span, TokenStream, TokenTree};
 use rustc_hash::FxHashSet;
 use smol_str::SmolStr;
 use std::{cell::RefCell, convert::TryInto, fmt::Write, rc::Rc};
@@ -1175,7 +1175,13 @@ fn expand_rust_code(
                     } else {
                         unreachable!()
                     };
-                    write!(out, "{}", tt).expect(WRITE_TO_MEM_FAILED_MSG);
+                    if declares_other_variable(&tt, out_var_name) {
+                        // not let it overwrite variables of code around
+                        write!(out, "let mut {0} = {{ {1} {0} }};", out_var_name, tt)
+                            .expect(WRITE_TO_MEM_FAILED_MSG);
+                    } else {
+                        write!(out, "{}", tt).expect(WRITE_TO_MEM_FAILED_MSG);
+                    }
                 }
                 _ if id == SWIG_I_TYPE => {
                     let (param, opt_arg) = match params.len() {
@@ -1230,6 +1236,27 @@ fn expand_rust_code(
     )
 }
 
+/// Is there `let` in this code for variable with name other than `var_name`,
+/// `let` inside of blocks doesn't count
+fn declares_other_variable(code: &str, var_name: &str) -> bool {
+    let tokens = match code.parse::<TokenStream>() {
+        Ok(tokens) => tokens,
+        Err(_) => return false,
+    };
+    let mut tokens = tokens.into_iter().peekable();
+    while let Some(token) = tokens.next() {
+        if matches!(&token, TokenTree::Ident(id) if id == "let") {
+            if matches!(tokens.peek(), Some(TokenTree::Ident(id)) if id == "mut") {
+                tokens.next();
+            }
+            if !matches!(tokens.peek(), Some(TokenTree::Ident(id)) if id == var_name) {
+                return true;
+            }
+        }
+    }
+    false
+}
+
 fn expand_foreign_code(
     code: &str,
     param_map: &TyParamsSubstMap,
-- 
2.43.0


From 9f9e95fd97a23e263ed007c3d29465da49f83db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:55 +0000
Subject: [PATCH 17/24] fix: doc comments of several lines in one attribute or
 block comment

---
 macroslib/src/code_parse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/code_parse.rs b/macroslib/src/code_parse.rs
index 2ed59c2..60a7337 100644
--- a/macroslib/src/code_parse.rs
+++ b/macroslib/src/code_parse.rs
@@ -152,7 +152,13 @@ fn parse_attrs(input: ParseStream, flags: ParseAttrsFlags) -> syn::Result<Attrs>
                         }),
                     ..
                 }) if path.is_ident("doc") => {
-                    doc_comments.push(lit_str.value());
+                    // block comments and `#[doc = "..."]` may contain several lines
+                    doc_comments.extend(
+                        lit_str
+                            .value()
+                            .split('\n')
+                            .map(|line| line.trim_end_matches('\r').to_string()),
+                    );
                 }
                 syn::Meta::List(syn::MetaList {
                     ref path,
-- 
2.43.0


From 24d315780d711bc98015bf5453f531b88f41cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:56 +0000
Subject: [PATCH 18/24] fix: doc comments with "*/" or "\u" broke the generated
 Java code

---
 macroslib/src/java_jni/java_code.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/java_code.rs b/macroslib/src/java_jni/java_code.rs
index aa028c3..39dbfec 100644
--- a/macroslib/src/java_jni/java_code.rs
+++ b/macroslib/src/java_jni/java_code.rs
@@ -81,7 +81,12 @@ pub(in crate::java_jni) fn doc_comments_to_java_comments(
             }
         }
 
-        write!(&mut comments, " * {}", comment.trim()).unwrap();
+        // "*/" would close the comment, and javac parses "\\u" even inside of comments
+        let comment = comment
+            .trim()
+            .replace("*/", "*&#47;")
+            .replace("\\u", "&#92;u");
+        write!(&mut comments, " * {}", comment).unwrap();
 
         if i == doc_comments.len() - 1 {
             comments.push('\n');
-- 
2.43.0


From 133ac8f96e25ec4ad2aa92d72d5dd2085e45817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:57 +0000
Subject: [PATCH 19/24] fix: C++ comment ending with backslash swallowed the
 next line

---
 macroslib/src/cpp/cpp_code.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/cpp_code.rs b/macroslib/src/cpp/cpp_code.rs
index fdbdbf2..7a663b6 100644
--- a/macroslib/src/cpp/cpp_code.rs
+++ b/macroslib/src/cpp/cpp_code.rs
@@ -33,7 +33,12 @@ pub(in crate::cpp) fn doc_comments_to_c_comments(
         if !class_comments {
             comments.push_str("    ");
         }
-        write!(&mut comments, "//{}", comment.trim()).unwrap();
+        let comment = comment.trim();
+        write!(&mut comments, "//{}", comment).unwrap();
+        if comment.ends_with('\\') || comment.ends_with("??/") {
+            // otherwise the next line becomes part of this comment
+            comments.push_str(" //");
+        }
     }
     comments
 }
-- 
2.43.0


From 727553ed7ea9d9ee5f0ddfea119cb4d0cabbb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:58 +0000
Subject: [PATCH 20/24] fix: non ASCII text in the code of generic conversion
 rule

---
 macroslib/src/typemap/typemap_macro.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index 82b2bfc..a682ffd 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -687,19 +687,19 @@ where
 fn find_macro(code: &str) -> Option<(&str, Vec<&str>, usize)> {
     let id_end = code.find(|ch: char| !(ch.is_alphanumeric() || ch == '_'))?;
     let mut next_pos = id_end + (code[id_end..]).find(|ch: char| !ch.is_whitespace())?;
-    if &code[next_pos..=next_pos] != "!" {
+    if !code[next_pos..].starts_with('!') {
         return None;
     }
     next_pos += 1;
     next_pos = next_pos + (code[next_pos..]).find(|ch: char| !ch.is_whitespace())?;
-    if &code[next_pos..=next_pos] != "(" {
+    if !code[next_pos..].starts_with('(') {
         return None;
     }
     next_pos += 1;
     let cnt_start = next_pos;
     let mut bracket_counter: usize = 1;
     let mut close_bracket_pos = None;
-    for (idx, ch) in code[next_pos..].chars().enumerate() {
+    for (idx, ch) in code[next_pos..].char_indices() {
         if ch == ')' {
             bracket_counter -= 1;
             if bracket_counter == 0 {
-- 
2.43.0


From edeb02d517768d750f274718f49a27b0ab931469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:59 +0000
Subject: [PATCH 21/24] fix: arguments of unknown macros in the code of generic
 rule were rewritten

---
 macroslib/src/typemap/ast.rs           | 14 ++-------
 macroslib/src/typemap/typemap_macro.rs | 40 ++++++++++++--------------
 2 files changed, 21 insertions(+), 33 deletions(-)

diff --git a/macroslib/src/typemap/ast.rs b/macroslib/src/typemap/ast.rs
index a976d8e..1a2f228 100644
--- a/macroslib/src/typemap/ast.rs
+++ b/macroslib/src/typemap/ast.rs
@@ -505,19 +505,9 @@ impl GenericTypeConv {
                         out.push_str(type_name);
                     }
                 } else {
-                    out.push_str(id);
-                    out.push_str("!(");
-                    let mut it = params.iter();
-                    if let Some(first) = it.next() {
-                        out.push_str(first);
-                    }
-                    for p in it {
-                        out.push_str(", ");
-                        out.push_str(p);
-                    }
-                    out.push(')');
+                    return Ok(false);
                 }
-                Ok(())
+                Ok(true)
             },
         )
         .unwrap_or_else(|err| {
diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index a682ffd..a3994f0 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -645,9 +645,11 @@ fn concat_idents(
     Ok(())
 }
 
+/// `expander` returns `Ok(false)` if this is not its macro,
+/// the text of such macro call goes to output as is
 pub(in crate::typemap) fn expand_macroses<E>(code: &str, mut expander: E) -> Result<String>
 where
-    E: FnMut(/*id*/ &str, /*params*/ Vec<&str>, /*out*/ &mut String) -> Result<()>,
+    E: FnMut(/*id*/ &str, /*params*/ Vec<&str>, /*out*/ &mut String) -> Result<bool>,
 {
     let mut prev_pos = 0;
     let mut ret = String::with_capacity(code.len());
@@ -658,8 +660,12 @@ where
                 ret.push_str(skip_chunk);
                 prev_pos += pos;
                 if let Some((macro_id, params, macro_call_end)) = find_macro(&code[prev_pos..]) {
-                    expander(macro_id, params, &mut ret)?;
-                    prev_pos += macro_call_end;
+                    if expander(macro_id, params, &mut ret)? {
+                        prev_pos += macro_call_end;
+                    } else {
+                        ret.push_str(macro_id);
+                        prev_pos += macro_id.len();
+                    }
                 } else {
                     match (code[prev_pos..]).find(|ch: char| !ch.is_alphabetic()) {
                         Some(pos) => {
@@ -1040,7 +1046,7 @@ fn expand_str_in_ftype_name_context(
                 name,
                 sp: Span::call_site(),
             }));
-            Ok(())
+            Ok(true)
         } else if id == SWIG_SUBST_TYPE {
             let type_name = if params.len() == 1 {
                 params[0]
@@ -1052,7 +1058,7 @@ fn expand_str_in_ftype_name_context(
             };
             let ty = find_type_param(param_map, type_name, ctx_span)?;
             out.push_str(normalize_type(ty.as_ref()));
-            Ok(())
+            Ok(true)
         } else if let Some(pos) = generic_aliases.iter().position(|a| a.name == id) {
             write!(out, "{}", DisplayToTokens(&generic_aliases[pos].value))
                 .expect(WRITE_TO_MEM_FAILED_MSG);
@@ -1062,7 +1068,7 @@ fn expand_str_in_ftype_name_context(
                     sp: Span::call_site(),
                 }
             }));
-            Ok(())
+            Ok(true)
         } else {
             Err(DiagnosticError::new2(
                 ctx_span,
@@ -1123,7 +1129,7 @@ fn expand_module_name(
 ) -> Result<SmolStr> {
     expand_macroses(
         generic_mod_name,
-        |id: &str, params: Vec<&str>, out: &mut String| -> Result<()> {
+        |id: &str, params: Vec<&str>, out: &mut String| -> Result<bool> {
             if !params.is_empty() {
                 Err(DiagnosticError::new2(
                     ctx_sp,
@@ -1135,7 +1141,7 @@ fn expand_module_name(
             } else if let Some(pos) = aliases.iter().position(|e| e.name == id) {
                 write!(out, "{}", DisplayToTokens(&aliases[pos].value))
                     .expect(WRITE_TO_MEM_FAILED_MSG);
-                Ok(())
+                Ok(true)
             } else {
                 Err(DiagnosticError::new2(
                     ctx_sp,
@@ -1156,7 +1162,7 @@ fn expand_rust_code(
 ) -> Result<String> {
     expand_macroses(
         code,
-        |id: &str, params: Vec<&str>, out: &mut String| -> Result<()> {
+        |id: &str, params: Vec<&str>, out: &mut String| -> Result<bool> {
             match id {
                 _ if id == SWIG_FROM_RUST_TO_I_TYPE || id == SWIG_FROM_I_TYPE_TO_RUST => {
                     let (type_name, in_var_name, out_var_name) = if params.len() == 3 {
@@ -1219,19 +1225,11 @@ fn expand_rust_code(
                         write!(out, "{}", normalize_type(&generic_aliases[alias_idx].value))
                             .expect(WRITE_TO_MEM_FAILED_MSG);
                     } else {
-                        write!(out, "{}!(", id).expect(WRITE_TO_MEM_FAILED_MSG);
-                        for (i, p) in params.iter().enumerate() {
-                            if i == 0 {
-                                out.push_str(p);
-                            } else {
-                                write!(out, ", {}", p).expect(WRITE_TO_MEM_FAILED_MSG);
-                            }
-                        }
-                        out.push(')');
+                        return Ok(false);
                     }
                 }
             }
-            Ok(())
+            Ok(true)
         },
     )
 }
@@ -1266,7 +1264,7 @@ fn expand_foreign_code(
 ) -> Result<String> {
     expand_macroses(
         code,
-        |id: &str, params: Vec<&str>, out: &mut String| -> Result<()> {
+        |id: &str, params: Vec<&str>, out: &mut String| -> Result<bool> {
             match id {
                 _ if id == SWIG_F_TYPE => {
                     call_swig_f_type(ctx_span, params, out, param_map, expander, generic_aliases)?;
@@ -1323,7 +1321,7 @@ fn expand_foreign_code(
                     }
                 }
             }
-            Ok(())
+            Ok(true)
         },
     )
 }
-- 
2.43.0


From 03dc304af24219bd0048ca300a5eef7ca8b1fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:00 +0000
Subject: [PATCH 22/24] fix: "struct" as part of C++ type name was removed from
 method result

---
 macroslib/src/cpp/fclass.rs   |  3 ++-
 macroslib/src/cpp/map_type.rs |  3 ++-
 macroslib/src/str_replace.rs  | 21 +++++++++++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index e7bcea8..28847fc 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -17,6 +17,7 @@ use crate::{
     extension::extend_foreign_class,
     file_cache::FileWriteCache,
     namegen::new_unique_name,
+    str_replace::replace_word,
     typemap::{
         ast::{list_lifetimes, strip_lifetimes},
         ty::RustType,
@@ -346,7 +347,7 @@ May be you need to use `private constructor = empty;` syntax?",
             ),
         };
         //rename types like "struct Foo" to "Foo" to make VC++ compiler happy
-        let cpp_ret_type = cpp_ret_type.display().replace("struct", "");
+        let cpp_ret_type = replace_word(cpp_ret_type.display(), "struct", "");
 
         let input_to_output_ret_code = if let Some((_, ref arg_name)) = input_to_output_arg {
             format!(
diff --git a/macroslib/src/cpp/map_type.rs b/macroslib/src/cpp/map_type.rs
index 8a25329..7032272 100644
--- a/macroslib/src/cpp/map_type.rs
+++ b/macroslib/src/cpp/map_type.rs
@@ -7,6 +7,7 @@ use syn::Type;
 use crate::{
     cpp::{merge_c_types, merge_rule, CppContext, CppForeignTypeInfo, MergeCItemsFlags},
     error::{DiagnosticError, Result, SourceIdSpan},
+    str_replace::replace_word,
     typemap::{
         ast::{DisplayToTokens, TyParamsSubstList, UniqueName},
         ty::{ForeignType, RustType, TraitNamesSet},
@@ -231,7 +232,7 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
         };
         Ok(ExpandedFType {
             name: UniqueName::new(
-                fname.value().replace("struct ", "").replace("union ", ""),
+                replace_word(&replace_word(fname.value(), "struct ", ""), "union ", ""),
                 fname.unique_prefix().unwrap_or(""),
             ),
             provided_by_module: f_info.provided_by_module.clone(),
diff --git a/macroslib/src/str_replace.rs b/macroslib/src/str_replace.rs
index f333932..2e9a02b 100644
--- a/macroslib/src/str_replace.rs
+++ b/macroslib/src/str_replace.rs
@@ -15,3 +15,24 @@ pub(crate) fn replace_first_and_other(src: &str, from: &str, first: &str, other:
     result.push_str(unsafe { src.get_unchecked(last_end..src.len()) });
     result
 }
+
+/// Like `str::replace`, but skip the places where `from` is only part of a longer word
+pub(crate) fn replace_word(src: &str, from: &str, to: &str) -> String {
+    let is_word = |ch: char| ch.is_alphanumeric() || ch == '_';
+    let (word_first, word_last) = (from.starts_with(is_word), from.ends_with(is_word));
+    let mut result = String::with_capacity(src.len());
+    let mut last_end = 0;
+    for (start, part) in src.match_indices(from) {
+        let end = start + part.len();
+        if (word_first && src[..start].ends_with(is_word))
+            || (word_last && src[end..].starts_with(is_word))
+        {
+            continue;
+        }
+        result.push_str(&src[last_end..start]);
+        result.push_str(to);
+        last_end = end;
+    }
+    result.push_str(&src[last_end..]);
+    result
+}
-- 
2.43.0


From 05a1ad01b422ae375f42a7a7ab5a8f9d6c408f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:01 +0000
Subject: [PATCH 23/24] fix: variable of conversion rule with name that is
 prefix of other name

---
 macroslib/src/str_replace.rs                 |  3 +++
 macroslib/src/typemap.rs                     |  3 ++-
 macroslib/src/typemap/typemap_macro/parse.rs | 12 ++++--------
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/macroslib/src/str_replace.rs b/macroslib/src/str_replace.rs
index 2e9a02b..f2cb25c 100644
--- a/macroslib/src/str_replace.rs
+++ b/macroslib/src/str_replace.rs
@@ -3,6 +3,9 @@ pub(crate) fn replace_first_and_other(src: &str, from: &str, first: &str, other:
     let mut last_end = 0;
     let mut matched = false;
     for (start, part) in src.match_indices(from) {
+        if src[start + part.len()..].starts_with(|ch: char| ch.is_alphanumeric() || ch == '_') {
+            continue;
+        }
         result.push_str(unsafe { src.get_unchecked(last_end..start) });
         if matched {
             result.push_str(other);
diff --git a/macroslib/src/typemap.rs b/macroslib/src/typemap.rs
index ec200cc..c62d784 100644
--- a/macroslib/src/typemap.rs
+++ b/macroslib/src/typemap.rs
@@ -21,6 +21,7 @@ use syn::{parse_quote, Ident, Type};
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result, SourceIdSpan},
     source_registry::SourceId,
+    str_replace::replace_word,
     typemap::{
         ast::{
             get_trait_bounds, normalize_type, DisplayToTokens, ForeignTypeName, GenericTypeConv,
@@ -178,7 +179,7 @@ impl TypeConvCode {
         }
         let mut ret = self.code.clone();
         for (id, val) in self.params.iter().zip(subst.iter()) {
-            ret = ret.replace(id.as_str(), val.as_ref());
+            ret = replace_word(&ret, id.as_str(), val.as_ref());
         }
         Ok(ret)
     }
diff --git a/macroslib/src/typemap/typemap_macro/parse.rs b/macroslib/src/typemap/typemap_macro/parse.rs
index 87de6bd..ef03121 100644
--- a/macroslib/src/typemap/typemap_macro/parse.rs
+++ b/macroslib/src/typemap/typemap_macro/parse.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use crate::{
     source_registry::SourceId,
-    str_replace::replace_first_and_other,
+    str_replace::{replace_first_and_other, replace_word},
     typemap::{
         ast::{DisplayToTokens, SpannedSmolStr},
         TypeConvCode, FROM_VAR_TEMPLATE, TO_VAR_TEMPLATE, TO_VAR_TYPE_TEMPLATE,
@@ -258,14 +258,13 @@ fn parse_r_type_rule(
         }
         Some(if code_str.contains(&out_var_no_type) {
             TypeConvCode::new2(
-                code_str
-                    .replace(&d_var_name, FROM_VAR_TEMPLATE)
+                replace_word(&code_str, &d_var_name, FROM_VAR_TEMPLATE)
                     .replace(&out_var_no_type, &format!("let mut {}", TO_VAR_TEMPLATE)),
                 (SourceId::none(), conv_body.span()),
             )
         } else {
             TypeConvCode::new2(
-                code_str.replace(&d_var_name, FROM_VAR_TEMPLATE).replace(
+                replace_word(&code_str, &d_var_name, FROM_VAR_TEMPLATE).replace(
                     &out_var,
                     &format!("let mut {}: {}", TO_VAR_TEMPLATE, TO_VAR_TYPE_TEMPLATE),
                 ),
@@ -693,10 +692,7 @@ fn parse_f_type_rule(
         })?;
         let var_name = format!("${}", var_name);
         let code = replace_first_and_other(
-            code_str
-                .value()
-                .replace(&var_name, FROM_VAR_TEMPLATE)
-                .as_str(),
+            &replace_word(&code_str.value(), &var_name, FROM_VAR_TEMPLATE),
             "$out",
             TO_VAR_TYPE_TEMPLATE,
             TO_VAR_TEMPLATE,
-- 
2.43.0


From a7f3485bf2a6a83c6177447f56c7c6831357bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:21 +0000
Subject: [PATCH 24/24] fix: refuse second item with the same name instead of
 overwriting the files of the first

---
 macroslib/src/lib.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/lib.rs b/macroslib/src/lib.rs
index 998e62a..6610a42 100644
--- a/macroslib/src/lib.rs
+++ b/macroslib/src/lib.rs
@@ -60,7 +60,7 @@ use strum::EnumIter;
 use syn::spanned::Spanned;
 
 use crate::{
-    error::{panic_on_parse_error, DiagnosticError, Result},
+    error::{panic_on_parse_error, DiagnosticError, Result, SourceIdSpan},
     source_registry::{SourceId, SourceRegistry},
     typemap::{ast::DisplayToTokens, TypeMap},
     types::ItemToExpand,
@@ -678,6 +678,7 @@ impl Generator {
                 }
             }
         }
+        check_foreign_names_unique(&items_to_expand)?;
         let generator = Generator::language_generator(&self.config);
         let code = generator.expand_items(
             &mut self.conv_map,
@@ -750,6 +751,27 @@ impl Generator {
     }
 }
 
+/// Output files are named after items, so the second item with the same name
+/// would silently replace the first one
+fn check_foreign_names_unique(items: &[ItemToExpand]) -> Result<()> {
+    let mut seen = FxHashMap::<String, SourceIdSpan>::default();
+    for item in items {
+        let (src_id, name) = match item {
+            ItemToExpand::Class(fclass) => (fclass.src_id, &fclass.name),
+            ItemToExpand::Enum(fenum) => (fenum.src_id, &fenum.name),
+            ItemToExpand::Interface(finterface) => (finterface.src_id, &finterface.name),
+        };
+        let span = (src_id, name.span());
+        if let Some(prev) = seen.insert(name.to_string(), span) {
+            return Err(
+                DiagnosticError::new2(prev, format!("Type {} already defined here", name))
+                    .add_span_note(span, format!("second mention of type {}", name)),
+            );
+        }
+    }
+    Ok(())
+}
+
 trait LanguageGenerator {
     fn expand_items(
         &self,
-- 
2.43.0

