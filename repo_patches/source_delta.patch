From 575b18941612c9077215bd21c1edeb92a8af0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 01/12] fix: ProtopathAccessor equality ignored everything but
 the protopath

AccessorsList treats equal accessors with one name as duplicates and keeps the
first; accessors of one protopath with different types, default values or code
compared equal, so one of them was dropped silently instead of being reported
as a duplicate name.
---
 arolla/codegen/io/protopath.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 69813ee..255e852 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -1388,8 +1388,12 @@ class ProtopathAccessor(accessors.Accessor):
     self.default_value_cpp = default_value_cpp
 
   def __eq__(self, other) -> bool:
-    return isinstance(other, ProtopathAccessor) and (
-        other.protopath == self.protopath
+    return (
+        isinstance(other, ProtopathAccessor)
+        and super().__eq__(other)
+        and self.protopath == other.protopath
+        and self.cpp_type == other.cpp_type
+        and self.default_value_cpp == other.default_value_cpp
     )
 
 
-- 
2.43.0


From 927d9ee53cc8bffc94e56556c89387238d3786e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 02/12] fix: escape every C++ keyword in protobuf getter names

'extern' was misspelled with a trailing space and 'do' and the C++20 keywords
were missing, so accessors of fields with those names did not compile.
---
 arolla/codegen/io/protopath.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 255e852..7807fac 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -62,22 +62,30 @@ _CPP_KEYWORDS = frozenset([
     'char',
     'char16_t',
     'char32_t',
+    'char8_t',
     'class',
+    'co_await',
+    'co_return',
+    'co_yield',
     'compl',
+    'concept',
     'const',
     'const_cast',
+    'consteval',
     'constexpr',
+    'constinit',
     'continue',
     'decltype',
     'default',
     'delete',
+    'do',
     'double',
     'dynamic_cast',
     'else',
     'enum',
     'explicit',
     'export',
-    'extern ',
+    'extern',
     'false',
     'float',
     'for',
@@ -102,6 +110,7 @@ _CPP_KEYWORDS = frozenset([
     'public',
     'register',
     'reinterpret_cast',
+    'requires',
     'return',
     'short',
     'signed',
-- 
2.43.0


From 9949e95da009faecd858ec581db6da5bdab04cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 03/12] fix: take the type map lock in CppTypeName and
 CppLiteralRepr

RegisterCppType modifies the maps under TypeMap::lock, but the lookups read
them without it, which is a data race with a concurrent registration.
---
 arolla/codegen/expr/types.cc | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/arolla/codegen/expr/types.cc b/arolla/codegen/expr/types.cc
index e026d12..f019f3e 100644
--- a/arolla/codegen/expr/types.cc
+++ b/arolla/codegen/expr/types.cc
@@ -22,6 +22,7 @@
 #include <vector>
 
 #include "absl/base/no_destructor.h"
+#include "absl/base/thread_annotations.h"
 #include "absl/container/flat_hash_map.h"
 #include "absl/status/status.h"
 #include "arolla/util/status_macros_backport.h"
@@ -223,10 +224,11 @@ absl::StatusOr<std::string> DenseArrayEdgeCppLiteralRepr(DenseArrayEdge edge) {
 
 struct TypeMap {
   absl::Mutex lock;
-  absl::flat_hash_map<QTypePtr, std::string> cpp_type_name;
+  absl::flat_hash_map<QTypePtr, std::string> cpp_type_name
+      ABSL_GUARDED_BY(lock);
   absl::flat_hash_map<QTypePtr,
                       std::function<absl::StatusOr<std::string>(TypedRef)>>
-      cpp_literal_repr_fn;
+      cpp_literal_repr_fn ABSL_GUARDED_BY(lock);
 };
 
 TypeMap& GetTypeMap() {
@@ -284,10 +286,13 @@ absl::Status RegisterCppType(
 
 absl::StatusOr<std::string> CppTypeName(QTypePtr qtype) {
   // check external types
-  const TypeMap& type_map = GetTypeMap();
-  if (auto it = type_map.cpp_type_name.find(qtype);
-      it != type_map.cpp_type_name.end()) {
-    return it->second;
+  {
+    TypeMap& type_map = GetTypeMap();
+    absl::MutexLock l(type_map.lock);
+    if (auto it = type_map.cpp_type_name.find(qtype);
+        it != type_map.cpp_type_name.end()) {
+      return it->second;
+    }
   }
   if (IsScalarQType(qtype)) {
     if (qtype == GetQType<bool>()) {
@@ -361,10 +366,18 @@ absl::StatusOr<std::string> CppQTypeConstruction(QTypePtr qtype) {
 absl::StatusOr<std::string> CppLiteralRepr(TypedRef value) {
   auto qtype = value.GetType();
   // check external types
-  const TypeMap& type_map = GetTypeMap();
-  if (auto it = type_map.cpp_literal_repr_fn.find(qtype);
-      it != type_map.cpp_literal_repr_fn.end()) {
-    return it->second(value);
+  std::function<absl::StatusOr<std::string>(TypedRef)> cpp_literal_repr;
+  {
+    TypeMap& type_map = GetTypeMap();
+    absl::MutexLock l(type_map.lock);
+    if (auto it = type_map.cpp_literal_repr_fn.find(qtype);
+        it != type_map.cpp_literal_repr_fn.end()) {
+      cpp_literal_repr = it->second;
+    }
+  }
+  // The callback runs without the lock, since it may call CppLiteralRepr.
+  if (cpp_literal_repr != nullptr) {
+    return cpp_literal_repr(value);
   }
   if (IsScalarQType(qtype)) {
     return NonOptionalCppLiteralRepr(value);
-- 
2.43.0


From 0a0890b4ba04048cd324eb01a42ac720a5661117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 04/12] fix: reject concurrent registrations of the same
 operator name

ExprOperatorRegistry::Register tested for an existing implementation and
stored the new one in separate critical sections, so that two threads could
both register the same name; the second silently replaced the first and the
name was listed twice.
---
 arolla/expr/registered_expr_operator.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/arolla/expr/registered_expr_operator.cc b/arolla/expr/registered_expr_operator.cc
index 5f79468..0109bcd 100644
--- a/arolla/expr/registered_expr_operator.cc
+++ b/arolla/expr/registered_expr_operator.cc
@@ -292,16 +292,17 @@ ExprOperatorRegistry::Register(absl::string_view name,
         absl::Utf8SafeCHexEscape(name)));
   }
   auto& record_singleton = LookupOrCreateRecordSingleton(name);
-  if (record_singleton.operator_implementation != nullptr) {
-    return absl::AlreadyExistsError(
-        absl::StrFormat("operator '%s' already exists", name));
-  }
-  record_singleton.operator_implementation.store(std::move(op_impl));
-  UpdateRevisionIds(record_singleton);
   {
+    // Concurrent registrations of the same name: only one may succeed.
     absl::MutexLock lock(mx_);
+    if (record_singleton.operator_implementation != nullptr) {
+      return absl::AlreadyExistsError(
+          absl::StrFormat("operator '%s' already exists", name));
+    }
+    record_singleton.operator_implementation.store(std::move(op_impl));
     registered_operators_.emplace_back(record_singleton.name);
   }
+  UpdateRevisionIds(record_singleton);
   return record_singleton.registered_operator;
 }
 
-- 
2.43.0


From 186d59aea4cdd4ea5df6e7ec0a989370a6c077ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 05/12] fix: make Object fingerprints unambiguous (attribute
 count, prototype flag)

---
 arolla/objects/object_qtype.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arolla/objects/object_qtype.cc b/arolla/objects/object_qtype.cc
index 3181778..8ffd907 100644
--- a/arolla/objects/object_qtype.cc
+++ b/arolla/objects/object_qtype.cc
@@ -77,11 +77,12 @@ std::vector<Object::Attributes::const_pointer> Object::GetSortedAttributes()
 }
 
 void Object::ArollaFingerprint(FingerprintHasher* hasher) const {
-  hasher->Combine(absl::string_view("::arolla::Object"));
+  hasher->Combine(absl::string_view("::arolla::Object"), attributes().size());
   for (const auto* pair : GetSortedAttributes()) {
     hasher->Combine(pair->first);
     hasher->Combine(pair->second.GetFingerprint());
   }
+  hasher->Combine(prototype().has_value());
   if (prototype().has_value()) {
     hasher->Combine(*prototype());
   }
-- 
2.43.0


From 2f74558875b195248fa159395d9d02a24223a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 06/12] fix: a null RegexPtr contributes to the fingerprint

---
 arolla/qtype/strings/regex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/qtype/strings/regex.cc b/arolla/qtype/strings/regex.cc
index 2368dab..159fec1 100644
--- a/arolla/qtype/strings/regex.cc
+++ b/arolla/qtype/strings/regex.cc
@@ -106,6 +106,7 @@ absl::StatusOr<absl_nonnull RegexPtr> CompileRegex(absl::string_view pattern) {
 
 void FingerprintHasherTraits<RegexPtr>::operator()(
     FingerprintHasher* hasher, const RegexPtr& value) const {
+  hasher->Combine(value != nullptr);
   if (value != nullptr) {
     hasher->Combine(value->pattern());
   }
-- 
2.43.0


From bc94ab92a64fd9128c1cf72814a0159e83b5a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 07/12] fix: IdFilter fingerprint ignored ids_offset

---
 arolla/array/id_filter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/array/id_filter.cc b/arolla/array/id_filter.cc
index df40da7..e646c3b 100644
--- a/arolla/array/id_filter.cc
+++ b/arolla/array/id_filter.cc
@@ -60,7 +60,7 @@ void FingerprintHasherTraits<IdFilter>::operator()(
     FingerprintHasher* hasher, const IdFilter& value) const {
   hasher->Combine(value.type());
   if (value.type() != IdFilter::Type::kFull) {
-    hasher->Combine(value.ids());
+    hasher->Combine(value.ids_offset(), value.ids());
   }
 }
 
-- 
2.43.0


From 96c2cc0b775a6b7c33b582ee80e16c91eebb6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 08/12] fix: StringsBuffer fingerprint ignored base_offset

---
 arolla/memory/strings_buffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index e2a93e5..2a3f07f 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -208,6 +208,7 @@ void FingerprintHasherTraits<StringsBuffer>::operator()(
   hasher->Combine(value.size());
   if (!value.empty()) {
     auto offsets_span = value.offsets().span();
+    hasher->Combine(value.base_offset());
     hasher->CombineRawBytes(offsets_span.data(),
                             offsets_span.size() * sizeof(offsets_span[0]));
     hasher->CombineSpan(value.characters().span());
-- 
2.43.0


From 6c4529e4c0119255e96cbdd85e964ee5c6478271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 09/12] fix: a null ExprOperatorPtr contributes to the
 fingerprint

---
 arolla/expr/expr_operator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/expr/expr_operator.cc b/arolla/expr/expr_operator.cc
index 483208c..208d09a 100644
--- a/arolla/expr/expr_operator.cc
+++ b/arolla/expr/expr_operator.cc
@@ -87,6 +87,7 @@ using ::arolla::expr::ExprOperatorPtr;
 
 void FingerprintHasherTraits<ExprOperatorPtr>::operator()(
     FingerprintHasher* hasher, const ExprOperatorPtr& value) const {
+  hasher->Combine(value != nullptr);
   if (value != nullptr) {
     hasher->Combine(value->fingerprint());
   }
-- 
2.43.0


From 72d1a573f5fe2f3506439bb91c1cc1a89adae75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 10/12] fix: DecisionForestOperator fingerprint ignored the
 required input ids

---
 .../expr_operator/decision_forest_operator.cc               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arolla/decision_forest/expr_operator/decision_forest_operator.cc b/arolla/decision_forest/expr_operator/decision_forest_operator.cc
index e5e6e75..7649b3b 100644
--- a/arolla/decision_forest/expr_operator/decision_forest_operator.cc
+++ b/arolla/decision_forest/expr_operator/decision_forest_operator.cc
@@ -46,6 +46,7 @@ std::vector<int> GetRequiredInputIds(
   for (const auto& [id, _] : required_types) {
     result.push_back(id);
   }
+  std::sort(result.begin(), result.end());
   return result;
 }
 
@@ -72,14 +73,13 @@ DecisionForestOperator::DecisionForestOperator(
           FingerprintHasher("::arolla::DecisionForestOperator")
               .Combine(forest->fingerprint())
               .CombineSpan(tree_filters)
+              .CombineSpan(required_input_ids)
               .Finish(),
           expr::ExprOperatorTags::kBuiltin,
           GetClassInfo<DecisionForestOperator>()),
       forest_(std::move(forest)),
       tree_filters_(std::move(tree_filters)),
-      required_input_ids_(std::move(required_input_ids)) {
-  std::sort(required_input_ids_.begin(), required_input_ids_.end());
-}
+      required_input_ids_(std::move(required_input_ids)) {}
 
 absl::StatusOr<QTypePtr> DecisionForestOperator::GetOutputQType(
     absl::Span<const QTypePtr> input_qtypes) const {
-- 
2.43.0


From 0f85c140b25f65f26368ce820d8daf1878b7fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 11/12] fix: WhileLoopOperator fingerprint ignored the
 signature's default values

---
 arolla/expr/operators/while_loop/while_loop.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arolla/expr/operators/while_loop/while_loop.cc b/arolla/expr/operators/while_loop/while_loop.cc
index 820a0ee..85de93f 100644
--- a/arolla/expr/operators/while_loop/while_loop.cc
+++ b/arolla/expr/operators/while_loop/while_loop.cc
@@ -308,7 +308,8 @@ WhileLoopOperator::WhileLoopOperator(PrivateConstrutorTag,
     : ExprOperatorWithFixedSignature(
           name, signature, "",
           FingerprintHasher("arolla::expr_operators::WhileLoopOperator")
-              .Combine(name, condition->fingerprint(), body->fingerprint())
+              .Combine(name, signature, condition->fingerprint(),
+                       body->fingerprint())
               .Finish(),
           ExprOperatorTags::kBuiltin, GetClassInfo<WhileLoopOperator>()),
       condition_(condition),
-- 
2.43.0


From 7299a5f05713fc50c2df4a2b677d5511f412483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 12/12] fix: InplaceLogicalAndWithOffsets reads no word of an
 empty range

---
 arolla/util/algorithms.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arolla/util/algorithms.h b/arolla/util/algorithms.h
index 6554720..4a5efbb 100644
--- a/arolla/util/algorithms.h
+++ b/arolla/util/algorithms.h
@@ -156,6 +156,9 @@ void InplaceLogicalAndWithOffsets(
   DCHECK_GE(lhs_skip, 0);
   DCHECK_LT(rhs_skip, bits_per_word);
   DCHECK_GE(rhs_skip, 0);
+  if (bitmaps_size == 0) {
+    return;
+  }
   size_t rhs_words =
       (bitmaps_size + rhs_skip + bits_per_word - 1) / bits_per_word;
   size_t lhs_words =
-- 
2.43.0

