From bc764519622bb5f59d2f40a18af75b540d0091c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 01/23] fix: make BinarySerializable::fromBinary() usable for
 versioned types

---
 lib/binary/serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/serializable.h b/lib/binary/serializable.h
index 3a87d06..a0b68e8 100644
--- a/lib/binary/serializable.h
+++ b/lib/binary/serializable.h
@@ -46,7 +46,7 @@ template <typename Type, BinaryVersion v> inline BinaryVersion BinarySerializabl
 template <typename Type, BinaryVersion v> Type BinarySerializable<Type, v>::fromBinary(std::istream &inputStream)
 {
     Type object;
-    static_cast<BinarySerializable<Type> &>(object).restoreFromBinary(inputStream);
+    static_cast<BinarySerializable<Type, v> &>(object).restoreFromBinary(inputStream);
     return object;
 }
 
-- 
2.43.0


From 757af28bf010f9d8c8457fa3d48238f0926bbf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 02/23] fix: preserve NUL bytes when deserializing JSON strings

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 9aeb899..51d4394 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -604,7 +604,7 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.GetString();
+    reflectable.assign(value.GetString(), value.GetStringLength());
 }
 
 /*!
-- 
2.43.0


From 60eba4c5453a0fe42bf9da779ee667c3e291d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 03/23] fix: preserve NUL bytes in keys when deserializing maps
 from JSON

---
 lib/json/reflector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 51d4394..23bf098 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -754,7 +754,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
-        pull(reflectable[i->name.GetString()], i->value, errors);
+        pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
 }
 
@@ -773,13 +773,15 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(
+                typename Type::key_type(i->name.GetString(), i->name.GetStringLength()), typename Type::mapped_type()));
             pull(insertedIterator->second, i->value, errors);
             continue;
         }
         const auto array = i->value.GetArray();
         for (const auto &arrayValue : array) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(
+                typename Type::key_type(i->name.GetString(), i->name.GetStringLength()), typename Type::mapped_type()));
             pull(insertedIterator->second, arrayValue, errors);
         }
     }
@@ -1142,7 +1144,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    return doc.GetString();
+    return Type(doc.GetString(), doc.GetStringLength());
 }
 
 /*!
-- 
2.43.0


From f0beb1b1319dc9b917b5213d682ab8a6489ce601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 04/23] fix: copy map keys when serializing to JSON

The document referred to the memory of the key which might be gone when the
document is used. Besides, keys containing NUL bytes were truncated.
---
 lib/json/reflector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 23bf098..cfe473e 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -248,6 +248,8 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     RAPIDJSON_NAMESPACE::Value::Object object(value.GetObject());
     for (const auto &item : reflectable) {
         push(item.second, item.first.data(), object, allocator);
+        // make a copy of the key (it might contain NUL bytes and the document might outlive the map)
+        (object.MemberEnd() - 1)->name.SetString(item.first.data(), rapidJsonSize(item.first.size()), allocator);
     }
 }
 
@@ -260,14 +262,14 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     value.SetObject();
     for (const auto &item : reflectable) {
         const auto memberName = RAPIDJSON_NAMESPACE::Value::StringRefType(item.first.data(), rapidJsonSize(item.first.size()));
-        const auto existingMember = value.FindMember(memberName);
+        const auto existingMember = value.FindMember(RAPIDJSON_NAMESPACE::Value(memberName));
         const auto arrayAlreadyExists
             = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
         auto newArrayValue = RAPIDJSON_NAMESPACE::Value{ RAPIDJSON_NAMESPACE::kArrayType };
         RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
         push(item.second, array, allocator);
         if (!arrayAlreadyExists) {
-            value.AddMember(memberName, newArrayValue, allocator);
+            value.AddMember(RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator), newArrayValue, allocator);
         }
     }
 }
-- 
2.43.0


From 2466217c6c668432973e96809bbb241676d8b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 05/23] fix: parse floating point numbers in JSON with full
 precision

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index cfe473e..7e1fa27 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -73,7 +73,7 @@ inline RAPIDJSON_NAMESPACE::StringBuffer serializeJsonDocToString(RAPIDJSON_NAME
 inline RAPIDJSON_NAMESPACE::Document parseJsonDocFromString(const char *json, std::size_t jsonSize)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
-    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize);
+    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<RAPIDJSON_NAMESPACE::kParseFullPrecisionFlag>(json, jsonSize);
     if (parseRes.IsError()) {
         throw parseRes;
     }
-- 
2.43.0


From 416248cd62099045e15d0f1aba8a2589cc4da3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 06/23] fix: avoid null pointer access on duplicates in JSON
 when no error object is supplied

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 7e1fa27..3cbd792 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -731,7 +731,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         ++index;
         typename Type::value_type itemObj;
         pull(itemObj, item, errors);
-        if (!reflectable.emplace(std::move(itemObj)).second) {
+        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-- 
2.43.0


From 3f6edb13ea48688f112e245eaa6a568943b4c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 07/23] fix: report numbers in JSON exceeding the range of the
 target type

Converting such numbers was undefined behavior or wrapped around silently.
---
 lib/json/reflector.h | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 3cbd792..433aa8e 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -16,6 +16,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <map>
 #include <memory>
@@ -527,6 +528,23 @@ inline void pull(Type &reflectable, const char *name, const rapidjson::GenericVa
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> *>
 void pull(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
 
+/// \cond
+namespace Detail {
+/*!
+ * \brief Returns whether \a number can be converted to \tparam Type (truncating it in case of integers).
+ */
+template <typename Type> inline bool isInRange(double number)
+{
+    if constexpr (std::is_floating_point_v<Type>) {
+        return number >= static_cast<double>(std::numeric_limits<Type>::lowest()) && number <= static_cast<double>(std::numeric_limits<Type>::max());
+    } else {
+        return std::trunc(number) >= static_cast<double>(std::numeric_limits<Type>::min())
+            && std::trunc(number) < std::ldexp(1.0, std::numeric_limits<Type>::digits);
+    }
+}
+} // namespace Detail
+/// \endcond
+
 /*!
  * \brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
  */
@@ -542,6 +560,12 @@ inline void pull(
         }
         return;
     }
+    if (!value.Is<Type>() && !Detail::isInRange<Type>(value.GetDouble())) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
     reflectable = value.Is<Type>() ? value.Get<Type>() : static_cast<Type>(value.GetDouble());
 }
 
@@ -552,8 +576,14 @@ template <typename Type, Traits::EnableIfAny<std::is_same<Type, std::uint8_t>, s
 inline void pull(
     Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    int i = 0;
+    int i = reflectable;
     pull(i, value, errors);
+    if (i < std::numeric_limits<Type>::min() || i > std::numeric_limits<Type>::max()) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
     if (value.IsNumber()) {
         reflectable = static_cast<Type>(i);
     }
@@ -590,7 +620,15 @@ inline void pull(
         }
         return;
     }
-    reflectable = static_cast<Type>(value.Get<ExpectedType>());
+    const auto number = value.Get<ExpectedType>();
+    if (number < std::numeric_limits<typename std::underlying_type<Type>::type>::min()
+        || number > std::numeric_limits<typename std::underlying_type<Type>::type>::max()) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
-- 
2.43.0


From f9769fe06274ff52816a0cfca0dd49abd76a1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 08/23] fix: report only the type mismatch when pulling a time
 value from a non-string

The value was additionally reported as conversion error, so there were two
errors for one value.
---
 lib/json/reflector-chronoutilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 7acccaf..6347623 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -43,6 +43,9 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
 {
     std::string str;
     pull(str, value, errors);
+    if (!value.IsString()) {
+        return;
+    }
     try {
         reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
     } catch (const CppUtilities::ConversionException &) {
@@ -58,6 +61,9 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
 {
     std::string str;
     pull(str, value, errors);
+    if (!value.IsString()) {
+        return;
+    }
     try {
         reflectable = CppUtilities::TimeSpan::fromString(str.data());
     } catch (const CppUtilities::ConversionException &) {
-- 
2.43.0


From f40ae96d9cddb9bc854202f1ec79e1beddde0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 09/23] fix: clear maps before pulling them from JSON

Previous entries were left in the map (and duplicated in case of multimaps)
although arrays and sets are cleared.
---
 lib/json/reflector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 433aa8e..3fa2bc9 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -460,12 +460,14 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
 
 /*!
  * \brief Pulls the specified \a reflectable which is a map from the specified value which is checked to contain an object.
+ *        The \a reflectable is cleared before.
  */
 template <typename Type, Traits::EnableIf<IsMapOrHash<Type>> * = nullptr>
 void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
 
 /*!
  * \brief Pulls the specified \a reflectable which is a multimap from the specified value which is checked to contain an object.
+ *        The \a reflectable is cleared before.
  */
 template <typename Type, Traits::EnableIf<IsMultiMapOrHash<Type>> * = nullptr>
 void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
@@ -782,6 +784,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
 
 /*!
  * \brief Pulls the specified \a reflectable which is a map from the specified value which is checked to contain an object.
+ *        The \a reflectable is cleared before.
  */
 template <typename Type, Traits::EnableIf<IsMapOrHash<Type>> *>
 void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
@@ -793,6 +796,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         return;
     }
     auto obj = value.GetObject();
+    reflectable.clear();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
@@ -800,6 +804,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
 
 /*!
  * \brief Pulls the specified \a reflectable which is a multimap from the specified value which is checked to contain an object.
+ *        The \a reflectable is cleared before.
  */
 template <typename Type, Traits::EnableIf<IsMultiMapOrHash<Type>> *>
 void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
@@ -811,6 +816,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         return;
     }
     auto obj = value.GetObject();
+    reflectable.clear();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
             auto insertedIterator = reflectable.insert(typename Type::value_type(
-- 
2.43.0


From 1ff9f9f733c9e9a8f374da25fa0a98740c2f0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 10/23] fix: report the right expected type for multimaps,
 custom maps, tuples and pairs

---
 lib/json/errorhandling.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index d363950..eb1e066 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -6,6 +6,8 @@
  * \brief Contains helper for error handling when deserializing JSON files.
  */
 
+#include "../traits.h"
+
 #include <c++utilities/misc/traits.h>
 
 #include <rapidjson/rapidjson.h>
@@ -14,6 +16,8 @@
 #include <limits>
 #include <list>
 #include <string>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace ReflectiveRapidJSON {
@@ -63,9 +67,8 @@ template <typename Type, Traits::EnableIfAny<Traits::IsString<Type>, Traits::IsC
 }
 
 template <typename Type,
-    Traits::EnableIf<Traits::IsIteratable<Type>,
-        Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-            Traits::IsSpecializationOf<Type, std::unordered_map>>>> * = nullptr>
+    Traits::EnableIf<Traits::Any<Traits::IsIteratable<Type>, Traits::IsSpecializingAnyOf<Type, std::tuple, std::pair>>,
+        Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Array;
@@ -73,9 +76,8 @@ constexpr JsonType jsonType()
 
 template <typename Type,
     Traits::DisableIfAny<std::is_integral<Type>, std::is_floating_point<Type>, Traits::IsString<Type>, Traits::IsCString<Type>,
-        Traits::All<Traits::IsIteratable<Type>,
-            Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-                Traits::IsSpecializationOf<Type, std::unordered_map>>>>> * = nullptr>
+        Traits::All<Traits::Any<Traits::IsIteratable<Type>, Traits::IsSpecializingAnyOf<Type, std::tuple, std::pair>>,
+            Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Object;
-- 
2.43.0


From 0c7169b01cc80f4dc465dc4d89bf770dde2472a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 11/23] fix: throw errors about invalid variants if configured
 as fatal

JsonDeserializationErrors::throwOn was not considered for these errors at all,
not even when set to ThrowOn::All.
---
 lib/json/errorhandling.h | 23 +++++++++++++++++++++++
 lib/json/reflector.h     |  9 +++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index eb1e066..3b395b5 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -161,6 +161,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
     void reportArraySizeMismatch();
     void reportConversionError(JsonType jsonType);
     void reportUnexpectedDuplicate(JsonType jsonType);
+    void reportInvalidVariantObject();
+    void reportInvalidVariantIndex(JsonType presentType);
 
     /// \brief The name of the class or struct which is currently being processed.
     const char *currentRecord;
@@ -175,6 +177,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
         ArraySizeMismatch = 0x2,
         ConversionError = 0x4,
         UnexpectedDuplicate = 0x8,
+        InvalidVariantObject = 0x10,
+        InvalidVariantIndex = 0x20,
         All = 0xFF,
     } throwOn;
 
@@ -266,6 +270,25 @@ inline void JsonDeserializationErrors::reportUnexpectedDuplicate(JsonType jsonTy
     throwMaybe(ThrowOn::UnexpectedDuplicate);
 }
 
+/*!
+ * \brief Reports an invalid variant object (lacking the index or data member).
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantObject()
+{
+    emplace_back(
+        JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantObject);
+}
+
+/*!
+ * \brief Reports an invalid variant index (which is either not a number or out of range).
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantIndex(JsonType presentType)
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, presentType, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantIndex);
+}
+
 } // namespace ReflectiveRapidJSON
 
 #endif // REFLECTIVE_RAPIDJSON_JSON_REFLECTOR_H
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 3fa2bc9..f36d84b 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -961,8 +961,7 @@ void assignVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant
         }
     } else {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, JsonType::Number, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(JsonType::Number);
         }
     }
 }
@@ -987,16 +986,14 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto dataIterator = obj.FindMember("data");
     if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantObject();
         }
         return;
     }
     const auto &indexValue = indexIterator->value;
     if (!indexValue.IsUint64()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, jsonType(indexValue.GetType()),
-                errors->currentRecord, errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
         }
         return;
     }
-- 
2.43.0


From 16c2b8645e5031ae888581e403fca665706f0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 12/23] fix: restore error context after nested arrays and
 fatal errors

After pulling an array the index of the surrounding array was lost. When an
error was fatal the context of that error was left behind and wrongly used for
errors reported when using the errors object again.
---
 lib/json/errorhandling.h | 34 ++++++++++++++++++++++++++++++++++
 lib/json/reflector.h     | 36 ++++++++++--------------------------
 2 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index 3b395b5..415b59e 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -289,6 +289,40 @@ inline void JsonDeserializationErrors::reportInvalidVariantIndex(JsonType presen
     throwMaybe(ThrowOn::InvalidVariantIndex);
 }
 
+/// \cond
+namespace Detail {
+/*!
+ * \brief The JsonErrorContextGuard class restores the context of the specified errors when going out of scope (also due to an exception).
+ */
+class JsonErrorContextGuard {
+public:
+    explicit JsonErrorContextGuard(JsonDeserializationErrors *errors)
+        : m_errors(errors)
+        , m_record(errors ? errors->currentRecord : nullptr)
+        , m_member(errors ? errors->currentMember : nullptr)
+        , m_index(errors ? errors->currentIndex : JsonDeserializationError::noIndex)
+    {
+    }
+    ~JsonErrorContextGuard()
+    {
+        if (m_errors) {
+            m_errors->currentRecord = m_record;
+            m_errors->currentMember = m_member;
+            m_errors->currentIndex = m_index;
+        }
+    }
+    JsonErrorContextGuard(const JsonErrorContextGuard &) = delete;
+    JsonErrorContextGuard &operator=(const JsonErrorContextGuard &) = delete;
+
+private:
+    JsonDeserializationErrors *const m_errors;
+    const char *const m_record;
+    const char *const m_member;
+    const std::size_t m_index;
+};
+} // namespace Detail
+/// \endcond
+
 } // namespace ReflectiveRapidJSON
 
 #endif // REFLECTIVE_RAPIDJSON_JSON_REFLECTOR_H
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index f36d84b..243a1b1 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -706,7 +706,8 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     // clear previous contents of the array
     reflectable.clear();
 
-    // pull all array elements of the specified value
+    // pull all array elements of the specified value (restoring the error context afterwards)
+    const auto contextGuard = ::ReflectiveRapidJSON::Detail::JsonErrorContextGuard(errors);
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -717,11 +718,6 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         reflectable.emplace_back();
         pull(reflectable.back(), item, errors);
     }
-
-    // clear error context
-    if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
-    }
 }
 
 /*!
@@ -733,7 +729,8 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     // clear previous contents of the array
     reflectable.clear();
 
-    // pull all array elements of the specified value
+    // pull all array elements of the specified value (restoring the error context afterwards)
+    const auto contextGuard = ::ReflectiveRapidJSON::Detail::JsonErrorContextGuard(errors);
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -745,11 +742,6 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         pull(itemObj, item, errors);
         reflectable.emplace(std::move(itemObj));
     }
-
-    // clear error context
-    if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
-    }
 }
 
 /*!
@@ -761,7 +753,8 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     // clear previous contents of the array
     reflectable.clear();
 
-    // pull all array elements of the specified value
+    // pull all array elements of the specified value (restoring the error context afterwards)
+    const auto contextGuard = ::ReflectiveRapidJSON::Detail::JsonErrorContextGuard(errors);
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -775,11 +768,6 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-
-    // clear error context
-    if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
-    }
 }
 
 /*!
@@ -1025,20 +1013,14 @@ inline void pull(Type &reflectable, const char *name, const rapidjson::GenericVa
         return; // TODO: handle member missing
     }
 
-    // set error context for current member
-    const char *previousMember = nullptr;
+    // set error context for current member (restoring the previous context afterwards)
+    const auto contextGuard = ::ReflectiveRapidJSON::Detail::JsonErrorContextGuard(errors);
     if (errors) {
-        previousMember = errors->currentMember;
         errors->currentMember = name;
     }
 
     // actually pull value for member
     pull<Type>(reflectable, member->value, errors);
-
-    // restore previous error context
-    if (errors) {
-        errors->currentMember = previousMember;
-    }
 }
 
 /*!
@@ -1053,6 +1035,7 @@ void pull(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_N
         }
         return;
     }
+    const auto contextGuard = ::ReflectiveRapidJSON::Detail::JsonErrorContextGuard(errors);
     pull(reflectable, value.GetObject(), errors);
 }
 
@@ -1152,6 +1135,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
     }
 
     Type res;
+    const auto contextGuard = ::ReflectiveRapidJSON::Detail::JsonErrorContextGuard(errors);
     pull<Type>(res, doc.GetObject(), errors);
     return res;
 }
-- 
2.43.0


From 104aeb493cd24276782d9a99f0e7b227e6eac9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 13/23] fix: clear containers before deserializing them in
 binary form

Maps and sets kept their previous elements and elements of arrays were reused
(so e.g. nested maps kept previous elements as well).
---
 lib/binary/reflector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 883d9b7..7b5ea8d 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -175,6 +175,7 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::
 template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> *> void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     iteratable.resize(size);
     for (auto &element : iteratable) {
         read(element);
@@ -184,6 +185,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
         read(value);
@@ -197,6 +199,7 @@ template <typename Type,
 void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
         read(value);
-- 
2.43.0


From 25501745122c1f3c6952dfe065ed09f02fd6c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 14/23] fix: initialize set elements before pulling them from
 JSON

An element which could not be pulled has been left uninitialized but was
inserted into the set nevertheless.
---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 243a1b1..63b2214 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -738,7 +738,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        typename Type::value_type itemObj{};
         pull(itemObj, item, errors);
         reflectable.emplace(std::move(itemObj));
     }
@@ -762,7 +762,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        typename Type::value_type itemObj{};
         pull(itemObj, item, errors);
         if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
-- 
2.43.0


From f5947a9dcd412aaeadfb753cea54fcdb1810b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 15/23] fix: parse floating point numbers without RapidJSON's
 full precision mode

The full precision mode of RapidJSON 1.1.0 reads out of bounds when parsing
numbers with very small exponents or many leading zeros. So convert floating
point numbers via the standard library instead.
---
 lib/json/reflector.h | 73 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 63b2214..fd8f0d2 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -12,17 +12,24 @@
 #include <c++utilities/application/global.h>
 
 #include <rapidjson/document.h>
+#include <rapidjson/encodedstream.h>
+#include <rapidjson/memorystream.h>
+#include <rapidjson/reader.h>
 #include <rapidjson/rapidjson.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <charconv>
 #include <cmath>
 #include <limits>
+#include <locale>
 #include <map>
 #include <memory>
 #include <optional>
 #include <set>
+#include <sstream>
 #include <string>
+#include <system_error>
 #include <tuple>
 #include <unordered_map>
 #include <unordered_set>
@@ -68,17 +75,77 @@ inline RAPIDJSON_NAMESPACE::StringBuffer serializeJsonDocToString(RAPIDJSON_NAME
     return buffer;
 }
 
+/// \cond
+namespace Detail {
+/*!
+ * \brief The PreciseNumbersDocument class stores floating point numbers passed on via RawNumber() without loss of precision.
+ * \remarks RapidJSON's kParseFullPrecisionFlag is not suitable for that. At least version 1.1.0 reads out of bounds when it is used to parse
+ *          numbers with very small exponents (or many leading zeros).
+ */
+class PreciseNumbersDocument : public RAPIDJSON_NAMESPACE::Document {
+public:
+    PreciseNumbersDocument()
+    {
+        m_stream.imbue(std::locale::classic());
+        m_stream.exceptions(std::ios_base::badbit); // pass on std::bad_alloc
+    }
+
+    bool isNumberTooBig() const
+    {
+        return m_numberTooBig;
+    }
+
+    bool RawNumber(const char *str, RAPIDJSON_NAMESPACE::SizeType length, bool)
+    {
+        const auto *const end = str + length;
+        if (*str == '-') {
+            auto integer = std::int64_t();
+            if (const auto res = std::from_chars(str, end, integer); res.ec == std::errc() && res.ptr == end) {
+                return Int64(integer);
+            }
+        } else {
+            auto integer = std::uint64_t();
+            if (const auto res = std::from_chars(str, end, integer); res.ec == std::errc() && res.ptr == end) {
+                return Uint64(integer);
+            }
+        }
+        auto number = 0.0;
+        m_stream.clear();
+        m_stream.str(std::string(str, length));
+        m_stream >> number;
+        m_numberTooBig = m_stream.fail() && std::abs(number) > 1.0;
+        return !m_numberTooBig && Double(number);
+    }
+
+private:
+    std::istringstream m_stream;
+    bool m_numberTooBig = false;
+};
+} // namespace Detail
+/// \endcond
+
 /*!
  * \brief Parses the specified JSON string.
  */
 inline RAPIDJSON_NAMESPACE::Document parseJsonDocFromString(const char *json, std::size_t jsonSize)
 {
-    RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
-    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<RAPIDJSON_NAMESPACE::kParseFullPrecisionFlag>(json, jsonSize);
+    auto document = Detail::PreciseNumbersDocument();
+    auto memoryStream = RAPIDJSON_NAMESPACE::MemoryStream(json, jsonSize);
+    auto stream = RAPIDJSON_NAMESPACE::EncodedInputStream<RAPIDJSON_NAMESPACE::UTF8<char>, RAPIDJSON_NAMESPACE::MemoryStream>(memoryStream);
+    auto reader = RAPIDJSON_NAMESPACE::Reader();
+    auto parseRes = RAPIDJSON_NAMESPACE::ParseResult();
+    const auto generator = [&](RAPIDJSON_NAMESPACE::Document &) {
+        parseRes = reader.Parse<RAPIDJSON_NAMESPACE::kParseNumbersAsStringsFlag>(stream, document);
+        return !parseRes.IsError();
+    };
+    document.Populate(generator);
+    if (document.isNumberTooBig()) {
+        parseRes.Set(RAPIDJSON_NAMESPACE::kParseErrorNumberTooBig, parseRes.Offset());
+    }
     if (parseRes.IsError()) {
         throw parseRes;
     }
-    return document;
+    return RAPIDJSON_NAMESPACE::Document(std::move(static_cast<RAPIDJSON_NAMESPACE::Document &>(document)));
 }
 
 // define traits to distinguish between "built-in" types like int, std::string, std::vector, ... and custom structs/classes
-- 
2.43.0


From d79f7540329daf7441e222b82c0e4a162c61a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 16/23] fix: write nested records with the version they support

The version of the outer record is propagated to nested records. If the nested
record has a lower version it was written claiming a version it does not know
and could not be read anymore.
---
 lib/versioning.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/versioning.h b/lib/versioning.h
index 42968a9..5b844b9 100644
--- a/lib/versioning.h
+++ b/lib/versioning.h
@@ -41,7 +41,8 @@ template <typename Type> struct Versioning<Type, true> {
     static constexpr auto maxSupported = Type::version;
     static constexpr auto &applyDefault(std::remove_const_t<decltype(serializationDefault)> &version)
     {
-        if (!version) {
+        // note: A version beyond the supported one is passed down from an outer record with a higher version.
+        if (!version || version > maxSupported) {
             version = serializationDefault;
         }
         return version;
-- 
2.43.0


From a982bf9b9aef9d75feeee086f247bbebffebda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 17/23] fix: keep shared objects alive while writing further
 data in the same session

The address of a shared object is used as its ID. When the object was destroyed
between two writes another object could get the same address and was then
written as reference to the destroyed one.
---
 lib/binary/reflector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 7b5ea8d..e45384c 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -20,6 +20,7 @@
 #include <optional>
 #include <string>
 #include <variant>
+#include <vector>
 
 /// \cond
 class BinaryReflectorTests;
@@ -116,6 +117,7 @@ public:
 
 private:
     std::unordered_map<std::uint64_t, bool> m_pointer;
+    std::vector<std::shared_ptr<const void>> m_writtenPointers;
 };
 
 inline BinaryDeserializer::BinaryDeserializer(std::istream *stream)
@@ -292,6 +294,8 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std:
         writeVariableLengthUIntBE(id);
     }
     if (!alreadyWritten) {
+        // keep the object alive so its address is not reused for another object
+        m_writtenPointers.emplace_back(pointer);
         alreadyWritten = true;
         write(*pointer);
     }
-- 
2.43.0


From 6d26c07ae23c26b58c19fd67703f58c147555c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 18/23] fix: report failures to flush or close the output of
 the generator

The output file was closed by the destructor which swallows errors and
the state of stdout was never checked, so the generator returned zero
when the last buffer could not be written. The error handler also
accessed the output file stream after its destruction.
---
 generator/main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/generator/main.cpp b/generator/main.cpp
index e3aa4b3..3967fb5 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -57,9 +57,9 @@ int main(int argc, char *argv[])
     }
 
     // setup output stream
+    ofstream outputFile;
     ostream *os = nullptr;
     try {
-        ofstream outputFile;
         if (outputFileArg.isPresent()) {
             outputFile.exceptions(ios_base::badbit | ios_base::failbit);
             outputFile.open(outputFileArg.values(0).front(), ios_base::out | ios_base::trunc | ios_base::binary);
@@ -127,6 +127,13 @@ int main(int argc, char *argv[])
             return -2;
         }
 
+        // write buffered output now so errors are not missed
+        if (outputFile.is_open()) {
+            outputFile.close();
+        } else if (!os->flush()) {
+            throw std::ios_base::failure("Unable to write to the output stream.");
+        }
+
     } catch (const std::ios_base::failure &failure) {
         const char *errorMessage = failure.what();
         if (os) {
-- 
2.43.0


From 04e6830b8086445e7bb6b4a2f659cd4d6271723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 19/23] fix: copy whole strings into documents made from
 strings and string views

The StringRef was converted back to a plain pointer, so strings were cut at
the first NUL character and string views were read beyond their end.
---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index fd8f0d2..67a4f6c 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1137,7 +1137,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string>> * = n
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
@@ -1159,7 +1159,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string_view>>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(std::string_view reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From eb7ee8dae91d792517e10bdfd84ab341a66c1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 20/23] fix: restore numbers on their own like numbers within
 records

Floats close to the maximum and floating point numbers present as integers
were refused ("expected number, got number") although they fit, so a saved
number was not restored.
---
 lib/json/reflector.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 67a4f6c..7283d9a 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1214,14 +1214,9 @@ template <typename Type, Traits::EnableIfAny<std::is_integral<Type>, std::is_flo
 Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors *errors = nullptr)
 {
     RAPIDJSON_NAMESPACE::Document doc(parseJsonDocFromString(json, jsonSize));
-    if (!doc.Is<Type>()) {
-        if (errors) {
-            errors->reportTypeMismatch<Type>(doc.GetType());
-        }
-        return Type();
-    }
-
-    return doc.Get<Type>();
+    auto res = Type();
+    pull(res, doc, errors);
+    return res;
 }
 
 /*!
-- 
2.43.0


From 4688accb6a6eab4f0b95fa7f410544b23196402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 21/23] fix: serialize members of indirect base classes only
 once

---
 generator/jsonserializationcodegenerator.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/generator/jsonserializationcodegenerator.cpp b/generator/jsonserializationcodegenerator.cpp
index 435c0a4..ffa96f3 100644
--- a/generator/jsonserializationcodegenerator.cpp
+++ b/generator/jsonserializationcodegenerator.cpp
@@ -6,7 +6,9 @@
 #include <clang/AST/DeclFriend.h>
 #include <clang/AST/DeclTemplate.h>
 
+#include <algorithm>
 #include <iostream>
+#include <iterator>
 
 using namespace std;
 using namespace CppUtilities;
@@ -105,8 +107,13 @@ void JsonSerializationCodeGenerator::generate(ostream &os) const
             }
         }
 
-        // find relevant base classes
-        const vector<const RelevantClass *> relevantBases = findRelevantBaseClasses(relevantClass, relevantClasses);
+        // find relevant base classes; skip indirect ones which are already covered by the code for another base class
+        const vector<const RelevantClass *> allRelevantBases = findRelevantBaseClasses(relevantClass, relevantClasses);
+        vector<const RelevantClass *> relevantBases;
+        copy_if(allRelevantBases.begin(), allRelevantBases.end(), back_inserter(relevantBases), [&allRelevantBases](const RelevantClass *baseClass) {
+            return none_of(allRelevantBases.begin(), allRelevantBases.end(),
+                [baseClass](const RelevantClass *otherBase) { return otherBase->record->isDerivedFrom(baseClass->record); });
+        });
 
         // print comment
         os << "// define code for (de)serializing " << relevantClass.qualifiedName << " objects\n";
-- 
2.43.0


From cec50fbf7e4af89b924894dd37481e043f311d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:14 +0000
Subject: [PATCH 22/23] fix: generate no code for unnamed bit-fields

The generated code did not compile if a class contained padding like "int : 4;".
---
 generator/binaryserializationcodegenerator.cpp | 10 ++++++++++
 generator/jsonserializationcodegenerator.cpp   |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/generator/binaryserializationcodegenerator.cpp b/generator/binaryserializationcodegenerator.cpp
index 3f12fe6..b56678b 100644
--- a/generator/binaryserializationcodegenerator.cpp
+++ b/generator/binaryserializationcodegenerator.cpp
@@ -279,6 +279,11 @@ void BinarySerializationCodeGenerator::generate(std::ostream &os) const
                 continue;
             }
 
+            // skip padding (unnamed bit-fields)
+            if (field->isBitField() && !field->getDeclName()) {
+                continue;
+            }
+
             // skip private members conditionally
             if (!writePrivateMembers && field->getAccess() != clang::AS_public) {
                 continue;
@@ -340,6 +345,11 @@ void BinarySerializationCodeGenerator::generate(std::ostream &os) const
                 continue;
             }
 
+            // skip padding (unnamed bit-fields)
+            if (field->isBitField() && !field->getDeclName()) {
+                continue;
+            }
+
             // write version markers
             mt.writeVersionCondition(os);
             mt.writeExtraPadding(os);
diff --git a/generator/jsonserializationcodegenerator.cpp b/generator/jsonserializationcodegenerator.cpp
index ffa96f3..3e64653 100644
--- a/generator/jsonserializationcodegenerator.cpp
+++ b/generator/jsonserializationcodegenerator.cpp
@@ -128,6 +128,10 @@ void JsonSerializationCodeGenerator::generate(ostream &os) const
         os << "    // push members\n";
         auto pushWritten = false;
         for (const clang::FieldDecl *field : relevantClass.record->fields()) {
+            // skip padding (unnamed bit-fields)
+            if (field->isBitField() && !field->getDeclName()) {
+                continue;
+            }
             if (pushPrivateMembers || field->getAccess() == clang::AS_public) {
                 os << "    push(reflectable." << field->getName() << ", \"" << field->getName() << "\", value, allocator);\n";
                 pushWritten = true;
@@ -167,6 +171,10 @@ void JsonSerializationCodeGenerator::generate(ostream &os) const
             if (field->getType().isConstant(field->getASTContext())) {
                 continue;
             }
+            // skip padding (unnamed bit-fields)
+            if (field->isBitField() && !field->getDeclName()) {
+                continue;
+            }
             if (pullPrivateMembers || field->getAccess() == clang::AS_public) {
                 os << "    pull(reflectable." << field->getName() << ", \"" << field->getName() << "\", value, errors);\n";
                 pullWritten = true;
-- 
2.43.0


From e846f2377b7804c37c5215d2533b1a20705667ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:48 +0000
Subject: [PATCH 23/23] fix: evaluate constant expressions specified as version

So far the first integer literal within the expression was used, or, if there
was none, the version marker silently ignored.
---
 generator/binaryserializationcodegenerator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/binaryserializationcodegenerator.cpp b/generator/binaryserializationcodegenerator.cpp
index b56678b..c0761b8 100644
--- a/generator/binaryserializationcodegenerator.cpp
+++ b/generator/binaryserializationcodegenerator.cpp
@@ -62,6 +62,7 @@ void BinarySerializationCodeGenerator::computeRelevantClass(RelevantClass &possi
 }
 
 /// \brief The RetrieveIntegerLiteralFromDeclaratorDecl struct is used to traverse a variable declaration to get the integer value.
+/// \remarks The value of the first (and hence outermost) expression which can be evaluated is used so arbitrary constant expressions work.
 struct RetrieveIntegerLiteralFromDeclaratorDecl : public clang::RecursiveASTVisitor<RetrieveIntegerLiteralFromDeclaratorDecl> {
     explicit RetrieveIntegerLiteralFromDeclaratorDecl(const clang::ASTContext &ctx);
     bool VisitStmt(clang::Stmt *st);
@@ -78,15 +79,15 @@ RetrieveIntegerLiteralFromDeclaratorDecl::RetrieveIntegerLiteralFromDeclaratorDe
 {
 }
 
-/// \brief Reads the integer value of \a st for integer literals.
+/// \brief Reads the integer value of \a st for integer constant expressions.
 bool RetrieveIntegerLiteralFromDeclaratorDecl::VisitStmt(clang::Stmt *st)
 {
-    if (st->getStmtClass() != clang::Stmt::IntegerLiteralClass) {
+    const auto *const expression = llvm::dyn_cast<clang::Expr>(st);
+    if (!expression || expression->isValueDependent()) {
         return true;
     }
-    const auto *const integerLiteral = static_cast<const clang::IntegerLiteral *>(st);
     auto evaluation = clang::Expr::EvalResult();
-    integerLiteral->EvaluateAsInt(evaluation, ctx, clang::Expr::SE_NoSideEffects, true);
+    expression->EvaluateAsInt(evaluation, ctx, clang::Expr::SE_NoSideEffects, true);
     if (!evaluation.Val.isInt()) {
         return true;
     }
-- 
2.43.0

