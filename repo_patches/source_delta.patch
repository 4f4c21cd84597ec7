From 146dc3c92087af39ec6b83069dbbef2682dd6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 01/64] fix: multipleOf with a fractional divisor applies only
 to numbers and tolerates rounding of exact decimal multiples

---
 include/valijson/validation_visitor.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7b8e7b3..a1f7797 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -862,6 +862,11 @@ public:
      */
     bool visit(const MultipleOfDoubleConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const double divisor = constraint.getDivisor();
 
         double d = 0.;
@@ -892,6 +897,9 @@ public:
         }
 
         if (divisor == 0) {
+            if (m_results) {
+                m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+            }
             return false;
         }
 
@@ -900,7 +908,9 @@ public:
         // error. This handles edge cases such as a large integer being a
         // multiple of a very small fraction (e.g. 12391239123 and 1e-8),
         // while still rejecting values where the precision is exhausted
-        // (e.g. 1e308 divided by 0.123456789 overflows to infinity).
+        // (e.g. 1e308 divided by 0.123456789 overflows to infinity). Neither
+        // 'd' nor 'divisor' may be exactly representable, and the quotient is
+        // rounded as well, so its relative error can exceed epsilon.
         const double quotient = d / divisor;
         if (!std::isfinite(quotient)) {
             if (m_results) {
@@ -912,7 +922,7 @@ public:
         const double rounded = std::round(quotient);
         const double diff = std::fabs(quotient - rounded);
         const double tolerance = std::max(std::fabs(quotient), 1.0)
-                * std::numeric_limits<double>::epsilon();
+                * 2 * std::numeric_limits<double>::epsilon();
 
         if (diff > tolerance) {
             if (m_results) {
-- 
2.43.0


From 1d41aabebf20bdae8aaa434f64e4ed22d17d57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 02/64] fix: multipleOf with an integer divisor no longer
 truncates fractions, applies to strings, or overflows

---
 include/valijson/validation_visitor.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index a1f7797..ec0ea7f 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -943,6 +943,11 @@ public:
      */
     bool visit(const MultipleOfIntConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const int64_t divisor = constraint.getDivisor();
 
         int64_t i = 0;
@@ -963,10 +968,13 @@ public:
             }
             // Casting a double outside the range of int64_t is undefined
             // behaviour, so check those values in floating point instead.
+            // The upper bound of int64_t is rounded up to 2^63 when converted
+            // to a double, so it is itself out of range. Values that are not
+            // integers cannot be a multiple of an integer.
             if (d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
-                    d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
-                if (fabs(remainder(d, static_cast<double>(divisor))) >
-                        std::numeric_limits<double>::epsilon()) {
+                    d >= static_cast<double>(std::numeric_limits<int64_t>::max()) ||
+                    std::trunc(d) != d) {
+                if (divisor == 0 || !(std::remainder(d, static_cast<double>(divisor)) == 0)) {
                     if (m_results) {
                         m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
                     }
@@ -983,7 +991,8 @@ public:
             return true;
         }
 
-        if (i % divisor != 0) {
+        // Note that INT64_MIN % -1 overflows
+        if (divisor == 0 || (divisor != -1 && i % divisor != 0)) {
             if (m_results) {
                 m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
             }
-- 
2.43.0


From 16a1fb76c28d6d3392f87eb9c32dc19fffdbf720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 03/64] fix: 2^63 stored as a double is not representable as
 int64_t

---
 include/valijson/internal/basic_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index d5368af..7384652 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -98,7 +98,8 @@ protected:
         if (d < static_cast<double>(std::numeric_limits<int64_t>::min())) {
             return false;
         }
-        if (d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+        // The conversion rounds up to 2^63, which does not fit in an int64_t
+        if (d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
             return false;
         }
         double intPart = 0.0;
-- 
2.43.0


From 24e164a7cb6f6270810ff3da3ec135d228babb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 04/64] fix: integral numbers outside the int64_t range satisfy
 type 'integer'

---
 include/valijson/validation_visitor.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index ec0ea7f..9340ef3 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -37,12 +37,6 @@ inline bool isDoubleAnInteger(const AdapterType &target)
     if (!std::isfinite(value)) {
         return false;
     }
-    if (value < static_cast<double>(std::numeric_limits<int64_t>::min())) {
-        return false;
-    }
-    if (value > static_cast<double>(std::numeric_limits<int64_t>::max())) {
-        return false;
-    }
     double intPart = 0.0;
     return std::modf(value, &intPart) == 0.0;
 }
-- 
2.43.0


From 60771216043202decf24ced5095a7b2605d498d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 05/64] fix: failures of false schemas, propertyNames and empty
 not constraints are reported in results

---
 include/valijson/validation_visitor.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 9340ef3..f02c9f9 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -99,6 +99,9 @@ public:
     bool validateSchema(const Subschema &subschema)
     {
         if (subschema.getAlwaysInvalid()) {
+            if (m_results) {
+                m_results->pushError(m_path, "No value is permitted by a 'false' schema.");
+            }
             return false;
         }
 
@@ -1012,6 +1015,10 @@ public:
         const Subschema *subschema = constraint.getSubschema();
         if (!subschema) {
             // Treat nullptr like empty schema
+            if (m_results) {
+                m_results->pushError(m_path,
+                        "Target should not validate against schema specified in 'not' constraint.");
+            }
             return false;
         }
 
@@ -1235,6 +1242,10 @@ public:
                 stringAdapter, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
 
             if (!validator.validateSchema(*constraint.getSubschema())) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Property name '" + m.first +
+                            "' does not validate against 'propertyNames' schema.");
+                }
                 return false;
             }
         }
-- 
2.43.0


From 261e2d4de503ec87828c61033c14b81e6a45a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 06/64] fix: collect results from all patternProperties after
 the first failure

---
 include/valijson/validation_visitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index f02c9f9..7daa1c9 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1170,7 +1170,7 @@ public:
         // constraints
         constraint.applyToPatternProperties(
                 ValidatePatternPropertySubschemas(
-                        object, m_path, true, false, true, m_strictTypes, m_strictDateTime,
+                        object, m_path, true, m_results != nullptr, true, m_strictTypes, m_strictDateTime,
                         m_results, &propertiesMatched,
                         &validated, m_regexesCache));
 
-- 
2.43.0


From e1f5f7ea41762bc486e7512d83ebdf5b3897bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 07/64] fix: collect results from all allOf branches after the
 first failure

---
 include/valijson/validation_visitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7daa1c9..89395a0 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -152,7 +152,7 @@ public:
     {
         bool validated = true;
         constraint.applyToSubschemas(
-                ValidateSubschemas(m_target, m_path, true, false, *this, m_results, nullptr, &validated));
+                ValidateSubschemas(m_target, m_path, true, m_results != nullptr, *this, m_results, nullptr, &validated));
 
         return validated;
     }
-- 
2.43.0


From ee633f0590746ebc4607625f656ecc2455708079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 08/64] fix: items that fail an 'items' schema are not reported
 against 'additionalItems' as well

---
 include/valijson/validation_visitor.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 89395a0..82d742c 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1615,11 +1615,14 @@ private:
 
             // Validate current array item
             ValidationVisitor validator(*itr, newPath, m_strictTypes, m_strictDateTime, m_results, m_regexesCache);
-            if (validator.validateSchema(*subschema)) {
-                if (m_numValidated) {
-                    (*m_numValidated)++;
-                }
 
+            // Items that fail must be counted too, since they should not be
+            // validated again using 'additionalItems'
+            if (m_numValidated) {
+                (*m_numValidated)++;
+            }
+
+            if (validator.validateSchema(*subschema)) {
                 return m_continueOnSuccess;
             }
 
-- 
2.43.0


From bbafecc736f71999da9c824ad222d4d7c1ea2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 09/64] fix: errors from schemas in a 'type' union are not
 reported when another member of the union matches

---
 include/valijson/validation_visitor.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 82d742c..459c2b0 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1359,9 +1359,12 @@ public:
 
         // Check schema-based types
         {
+            // Like anyOf, errors from individual schemas are not reported
             unsigned int numValidated = 0;
+            ValidationVisitor<AdapterType, RegexEngine> v(
+                m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
             constraint.applyToSchemaTypes(
-                    ValidateSubschemas(m_target, m_path, false, true, *this, nullptr, &numValidated, nullptr));
+                    ValidateSubschemas(m_target, m_path, false, true, v, nullptr, &numValidated, nullptr));
             if (numValidated > 0) {
                 return true;
             } else if (m_results) {
-- 
2.43.0


From 65098cde655c37fcaa1045c3d839ddc5386cc444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 10/64] fix: a non-zero value far smaller than the divisor is
 not a multiple of it

---
 include/valijson/validation_visitor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 459c2b0..9be15f0 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -921,7 +921,8 @@ public:
         const double tolerance = std::max(std::fabs(quotient), 1.0)
                 * 2 * std::numeric_limits<double>::epsilon();
 
-        if (diff > tolerance) {
+        // A non-zero value that is much smaller than the divisor is not a multiple
+        if (rounded == 0 || diff > tolerance) {
             if (m_results) {
                 m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
             }
-- 
2.43.0


From 1db0bbe7aecf07d58b6a6f5e0e75bb6959593cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 11/64] fix: the schema of propertyNames is registered under
 its own path, not that of its parent

---
 include/valijson/schema_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 065730e..f4ff506 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1110,7 +1110,7 @@ private:
             if (m_version == kDraft7) {
                 rootSchema.addConstraintToSubschema(
                       makePropertyNamesConstraint(rootSchema, rootNode, itr->second, updatedScope,
-                              nodePath, fetchDoc, docCache, schemaRegistry),
+                              nodePath + "/propertyNames", fetchDoc, docCache, schemaRegistry),
                       &subschema);
             } else {
                 throwRuntimeError("Not supported");
-- 
2.43.0


From c92c3ad0e9dfb71e93c1377a4a08d74c1e7688e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 12/64] fix: property names and patterns are escaped in
 registry keys so that different subschemas never share one

---
 include/valijson/schema_parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index f4ff506..b07ee95 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2371,7 +2371,8 @@ private:
         if (properties) {
             for (const Member m : properties->getObject()) {
                 const std::string &property = m.first;
-                const std::string childPath = propertiesPath + "/" + property;
+                const std::string childPath = propertiesPath + "/" +
+                        escapeJsonPointerToken(property);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
@@ -2384,7 +2385,8 @@ private:
         if (patternProperties) {
             for (const Member m : patternProperties->getObject()) {
                 const std::string &pattern = m.first;
-                const std::string childPath = patternPropertiesPath + "/" + pattern;
+                const std::string childPath = patternPropertiesPath + "/" +
+                        escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &pattern, docCache,
-- 
2.43.0


From 53da31e87b18f5de6fe92d5a9094fc96962637e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 13/64] fix: Draft 3 'required' within patternProperties does
 not require a property named like the pattern

---
 include/valijson/schema_parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index b07ee95..e225b5d 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1119,13 +1119,15 @@ private:
 
         if ((itr = object.find("required")) != object.end()) {
             if (m_version == kDraft3) {
+                // A schema for properties that match a pattern has no name of
+                // its own, so 'required' has no effect there
                 if (parentSubschema && ownName) {
                     std::optional<constraints::RequiredConstraint> constraint =
                             makeRequiredConstraintForSelf(itr->second, *ownName);
                     if (constraint) {
                         rootSchema.addConstraintToSubschema(*constraint, parentSubschema);
                     }
-                } else {
+                } else if (!parentSubschema) {
                     throwRuntimeError("'required' constraint not valid here");
                 }
             } else {
@@ -2389,7 +2391,7 @@ private:
                         escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
-                        fetchDoc, parentSubschema, &pattern, docCache,
+                        fetchDoc, parentSubschema, nullptr, docCache,
                         schemaRegistry);
                 constraint.addPatternPropertySubschema(pattern, subschema);
             }
-- 
2.43.0


From c3a8d32897abf489eae67684aab715bc3874ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 14/64] fix: an empty schema in a Draft 3 type union is not
 taken for a type name

---
 include/valijson/schema_parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index e225b5d..92fb3dc 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2542,7 +2542,9 @@ private:
 
         TypeConstraint constraint;
 
-        if (node.maybeString()) {
+        // Note that an empty object is considered to be convertible to a string
+        // so 'isObject' is consulted before 'maybeString' here, and below
+        if (node.maybeString() && !node.isObject()) {
             const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(node.getString());
             if (type == TypeConstraint::kAny && m_version == kDraft4) {
                 throwRuntimeError("'any' type is not supported in version 4 schemas.");
@@ -2553,7 +2555,7 @@ private:
         } else if (node.maybeArray()) {
             int index = 0;
             for (const AdapterType v : node.getArray()) {
-                if (v.maybeString()) {
+                if (v.maybeString() && !v.isObject()) {
                     const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
                     if (type == TypeConstraint::kAny && m_version == kDraft4) {
                         throwRuntimeError("'any' type is not supported in version 4 schemas.");
-- 
2.43.0


From f9b6e688d614f836cb277c81515b86d5b5e8067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 15/64] fix: RapidJSON integers beyond int64_t do not wrap to
 negative numbers

---
 .../valijson/adapters/rapidjson_adapter.hpp    | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5623dab..224822c 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -450,7 +450,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.IsDouble()) {
+        if (isDouble()) {
             result = m_value.GetDouble();
             return true;
         }
@@ -460,18 +460,9 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.IsInt()) {
-            result = m_value.GetInt();
-            return true;
-        } else if (m_value.IsInt64()) {
+        if (m_value.IsInt64()) {
             result = m_value.GetInt64();
             return true;
-        } else if (m_value.IsUint()) {
-            result = static_cast<int64_t>(m_value.GetUint());
-            return true;
-        } else if (m_value.IsUint64()) {
-            result = static_cast<int64_t>(m_value.GetUint64());
-            return true;
         }
 
         return false;
@@ -543,12 +534,13 @@ public:
 
     bool isDouble() const
     {
-        return m_value.IsDouble();
+        // Integers that do not fit in an int64_t are treated as doubles
+        return m_value.IsDouble() || (m_value.IsUint64() && !m_value.IsInt64());
     }
 
     bool isInteger() const
     {
-        return m_value.IsInt() || m_value.IsInt64() || m_value.IsUint() || m_value.IsUint64();
+        return m_value.IsInt64();
     }
 
     bool isNull() const
-- 
2.43.0


From e86ba00cd6d997ba640451c879bd4efb2e52054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 16/64] fix: nlohmann/json integers beyond int64_t do not wrap
 to negative numbers

---
 .../adapters/nlohmann_json_adapter.hpp        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/nlohmann_json_adapter.hpp b/include/valijson/adapters/nlohmann_json_adapter.hpp
index c520757..fd10754 100644
--- a/include/valijson/adapters/nlohmann_json_adapter.hpp
+++ b/include/valijson/adapters/nlohmann_json_adapter.hpp
@@ -26,6 +26,8 @@
 #pragma once
 
 #include <cmath>
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 #include <nlohmann/json.hpp>
@@ -517,6 +519,9 @@ public:
             result = m_value.get<double>();
             // NaN and Infinity are always serialized as null
             return std::isfinite(result);
+        } else if (isLargeUnsigned()) {
+            result = m_value.get<double>();
+            return true;
         }
 
         return false;
@@ -524,7 +529,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if(m_value.is_number_integer()) {
+        if (isInteger()) {
             result = m_value.get<int64_t>();
             return true;
         }
@@ -591,7 +596,7 @@ public:
     bool isDouble() const
     {
         if (!m_value.is_number_float()) {
-            return false;
+            return isLargeUnsigned();
         }
         // NaN and Infinity are always serialized as null
         return std::isfinite(m_value.get<double>());
@@ -599,7 +604,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.is_number_integer();
+        return m_value.is_number_integer() && !isLargeUnsigned();
     }
 
     bool isNull() const
@@ -638,6 +643,14 @@ public:
 
 private:
 
+    /// Determine whether the value is an integer that does not fit in an int64_t,
+    /// and must therefore be treated as a double
+    bool isLargeUnsigned() const
+    {
+        return m_value.is_number_unsigned() &&
+            m_value.get<uint64_t>() > static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared NlohmannJson value instance used to represent an empty object
     static inline const nlohmann::json emptyObject = nlohmann::json::object();
 
-- 
2.43.0


From 14c6f07a695cfc7507b2879c1b6bd84787acfe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 17/64] fix: Boost.JSON integers beyond int64_t do not wrap to
 negative numbers

---
 .../valijson/adapters/boost_json_adapter.hpp  | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 2fa5d25..fd48952 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -25,6 +25,8 @@
 
 #pragma once
 
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 
@@ -324,6 +326,9 @@ public:
         if (m_value.is_double()) {
             result = m_value.get_double();
             return true;
+        } else if (isLargeUnsigned()) {
+            result = static_cast<double>(m_value.get_uint64());
+            return true;
         }
 
         return false;
@@ -334,7 +339,7 @@ public:
         if (m_value.is_int64()) {
             result = m_value.get_int64();
             return true;
-        } else if (m_value.is_uint64()) {
+        } else if (isInteger()) {
             result = static_cast<int64_t>(m_value.get_uint64());
             return true;
         }
@@ -413,12 +418,12 @@ public:
 
     bool isDouble() const
     {
-        return m_value.is_double();
+        return m_value.is_double() || isLargeUnsigned();
     }
 
     bool isInteger() const
     {
-        return m_value.is_int64() || m_value.is_uint64();
+        return m_value.is_int64() || (m_value.is_uint64() && !isLargeUnsigned());
     }
 
     bool isNull() const
@@ -443,6 +448,14 @@ public:
 
 private:
 
+    /// Determine whether the value is an integer that does not fit in an int64_t,
+    /// and must therefore be treated as a double
+    bool isLargeUnsigned() const
+    {
+        return m_value.is_uint64() &&
+            m_value.get_uint64() > static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared Boost.JSON instance used to represent empty object.
     static inline const boost::json::value emptyObject;
 
-- 
2.43.0


From 5a1aecd341f6958e5350564b4f85157e0f7780fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 18/64] fix: Boost.JSON strings containing NUL are not
 truncated

---
 include/valijson/adapters/boost_json_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index fd48952..cb64557 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -394,7 +394,8 @@ public:
     bool getString(std::string &result) const
     {
         if (m_value.is_string()) {
-            result = m_value.get_string().c_str();
+            const boost::json::string &s = m_value.get_string();
+            result.assign(s.data(), s.size());
             return true;
         }
 
-- 
2.43.0


From ca3e1cc10fe85de2cf1533565878901e994a6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 19/64] fix: default constructed Boost.JSON, Poco and Qt
 adapters contain an empty object rather than null

---
 include/valijson/adapters/boost_json_adapter.hpp | 2 +-
 include/valijson/adapters/poco_json_adapter.hpp  | 6 +++---
 include/valijson/adapters/qtjson_adapter.hpp     | 2 +-
 include/valijson/adapters/qvariant_adapter.hpp   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index cb64557..6229728 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -458,7 +458,7 @@ private:
     }
 
     /// Shared Boost.JSON instance used to represent empty object.
-    static inline const boost::json::value emptyObject;
+    static inline const boost::json::value emptyObject = boost::json::object();
 
     /// Reference to the contained Boost.JSON value.
     const boost::json::value &m_value;
diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d50017c..7265c1e 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -110,7 +110,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty array.
     */
-    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr();
+    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr(new Poco::JSON::Array());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -195,7 +195,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty object.
     */
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -442,7 +442,7 @@ public:
 private:
 
     /// Shared PocoJson value used to represent an empty object
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index 86d6c1b..b13bd86 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -444,7 +444,7 @@ public:
 private:
 
     /// Shared QtJson value instance used to represent an empty object
-    static inline const QJsonValue emptyObject;
+    static inline const QJsonValue emptyObject = QJsonObject();
 
     /// Reference to the contained QtJson value.
     const QJsonValue m_value;
diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index a055555..b4b3d8b 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -463,7 +463,7 @@ public:
 private:
 
     /// Shared QtVariant value instance used to represent an empty object
-    static inline const QVariant emptyObject;
+    static inline const QVariant emptyObject = QVariantMap();
 
     /// Reference to the contained QtVariant value.
     const QVariant m_value;
-- 
2.43.0


From d8736d6e544659e21711d6ff5fa6aa00cac16c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 20/64] fix: Poco integers beyond int64_t are not an error, and
 booleans are not numbers

---
 include/valijson/adapters/poco_json_adapter.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index 7265c1e..e4db977 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -25,6 +25,8 @@
 
 #pragma once
 
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 #include <Poco/JSON/Object.h>
@@ -328,7 +330,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.isNumeric() && !m_value.isInteger()) {
+        if (isDouble()) {
             result = m_value.convert<double>();
             return true;
         }
@@ -338,7 +340,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isInteger()) {
+        if (isInteger()) {
             result = m_value.convert<int64_t>();
             return true;
         }
@@ -411,12 +413,14 @@ public:
 
     bool isDouble() const
     {
-        return m_value.isNumeric() && !m_value.isInteger();
+        return isNumber() && !isInteger();
     }
 
     bool isInteger() const
     {
-        return !isBool() && m_value.isInteger();
+        // Integers that do not fit in an int64_t are treated as doubles
+        return !isBool() && m_value.isInteger() && (m_value.isSigned() ||
+            m_value.convert<uint64_t>() <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
     }
 
     bool isNull() const
@@ -426,7 +430,7 @@ public:
 
     bool isNumber() const
     {
-        return m_value.isNumeric();
+        return !isBool() && m_value.isNumeric();
     }
 
     bool isObject() const
-- 
2.43.0


From ff603a532b950d54206f2bf0a2a9d07c24218528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 21/64] fix: JsonCpp integers beyond 32 bits are not an error

---
 include/valijson/adapters/jsoncpp_adapter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/jsoncpp_adapter.hpp b/include/valijson/adapters/jsoncpp_adapter.hpp
index 4a692a6..7c0fd8e 100644
--- a/include/valijson/adapters/jsoncpp_adapter.hpp
+++ b/include/valijson/adapters/jsoncpp_adapter.hpp
@@ -327,8 +327,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isIntegral()) {
-            result = static_cast<int64_t>(m_value.asInt());
+        if (isInteger()) {
+            result = m_value.asInt64();
             return true;
         }
 
@@ -406,7 +406,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.isIntegral() && !m_value.isBool();
+        return m_value.isInt64() && !m_value.isBool();
     }
 
     bool isNull() const
-- 
2.43.0


From 945d335af8b7e67c49af4ae73f61c1d0d95887c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 22/64] fix: QtJson integers beyond 32 bits are integers, and
 other numbers are not

---
 include/valijson/adapters/qtjson_adapter.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index b13bd86..13544ff 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -337,8 +337,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isDouble()) {
-            result = m_value.toInt();
+        if (isInteger()) {
+            result = toInteger(0);
             return true;
         }
 
@@ -417,8 +417,8 @@ public:
 
     bool isInteger() const
     {
-        //toInt returns the default value (0, 1) if the value is not a whole number
-        return m_value.isDouble() && (m_value.toInt(0) == m_value.toInt(1));
+        // toInteger returns the default value (0, 1) if the value is not a whole number
+        return m_value.isDouble() && (toInteger(0) == toInteger(1));
     }
 
     bool isNull() const
@@ -443,6 +443,16 @@ public:
 
 private:
 
+    /// Convert a whole number to an integer, or return the default value
+    int64_t toInteger(int64_t defaultValue) const
+    {
+#if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
+        return m_value.toInteger(defaultValue);
+#else
+        return m_value.toInt(static_cast<int>(defaultValue));
+#endif
+    }
+
     /// Shared QtJson value instance used to represent an empty object
     static inline const QJsonValue emptyObject = QJsonObject();
 
-- 
2.43.0


From 790d48407bb2d22fb58f36cab1c95897ce606edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 23/64] fix: QVariant integers beyond int64_t do not wrap to
 negative numbers

---
 include/valijson/adapters/qvariant_adapter.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index b4b3d8b..c7e4ffa 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -25,6 +25,8 @@
 
 #pragma once
 
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 #include <utility>
@@ -417,7 +419,7 @@ public:
             QMetaType::Double,
             QMetaType::Float
         };
-        return types.contains(m_value.typeId());
+        return types.contains(m_value.typeId()) || isLargeUnsigned();
     }
 
     bool isInteger() const
@@ -437,7 +439,7 @@ public:
             QMetaType::SChar,
             QMetaType::UChar
         };
-        return types.contains(m_value.typeId());
+        return types.contains(m_value.typeId()) && !isLargeUnsigned();
     }
 
     bool isNull() const
@@ -462,6 +464,14 @@ public:
 
 private:
 
+    /// Determine whether the value is an integer that does not fit in an int64_t,
+    /// and must therefore be treated as a double
+    bool isLargeUnsigned() const
+    {
+        return (m_value.typeId() == QMetaType::ULongLong || m_value.typeId() == QMetaType::ULong) &&
+            m_value.toULongLong() > static_cast<qulonglong>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared QtVariant value instance used to represent an empty object
     static inline const QVariant emptyObject = QVariantMap();
 
-- 
2.43.0


From 3cde1b274909f1a5246523ca94a3127fbcb723e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 24/64] fix: weakly typed validation of an empty value against
 uniqueItems or additionalProperties does not throw

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 9be15f0..c7b9e77 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1180,7 +1180,7 @@ public:
         const Subschema *additionalPropertiesSubschema =
                 constraint.getAdditionalPropertiesSubschema();
         if (!additionalPropertiesSubschema) {
-            if (propertiesMatched.size() != m_target.getObjectSize()) {
+            if (propertiesMatched.size() != object.size()) {
                 if (m_results) {
                     std::string unwanted;
                     for (const typename AdapterType::ObjectMember m : object) {
@@ -1393,7 +1393,8 @@ public:
             return true;
         }
 
-        size_t array_size = m_target.getArraySize();
+        const typename AdapterType::Array targetArray = m_target.asArray();
+        const size_t array_size = targetArray.size();
 
         // Empty arrays are always valid
         if (array_size == 0) {
@@ -1402,7 +1403,6 @@ public:
 
         bool validated = true;
 
-        const typename AdapterType::Array targetArray = m_target.asArray();
         const typename AdapterType::Array::const_iterator end = targetArray.end();
 
         typename AdapterType::Array::const_iterator outerItr = targetArray.begin();
-- 
2.43.0


From 3a0fb1e5cc9a94cc43f55488751179ca91f56bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 25/64] fix: Boost.JSON integers beyond int64_t are integers
 whose value is retrieved as a double

---
 .../valijson/adapters/boost_json_adapter.hpp    |  8 ++++----
 include/valijson/internal/basic_adapter.hpp     | 17 ++++++++---------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 6229728..fbd78ee 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -339,7 +339,7 @@ public:
         if (m_value.is_int64()) {
             result = m_value.get_int64();
             return true;
-        } else if (isInteger()) {
+        } else if (m_value.is_uint64() && !isLargeUnsigned()) {
             result = static_cast<int64_t>(m_value.get_uint64());
             return true;
         }
@@ -424,7 +424,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.is_int64() || (m_value.is_uint64() && !isLargeUnsigned());
+        return m_value.is_int64() || m_value.is_uint64();
     }
 
     bool isNull() const
@@ -449,8 +449,8 @@ public:
 
 private:
 
-    /// Determine whether the value is an integer that does not fit in an int64_t,
-    /// and must therefore be treated as a double
+    /// Determine whether the value is an integer that does not fit in an int64_t.
+    /// Its value can only be retrieved as a double.
     bool isLargeUnsigned() const
     {
         return m_value.is_uint64() &&
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index 7384652..bd32ed5 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -400,8 +400,8 @@ public:
 
     bool asInteger(int64_t &result) const override
     {
-        if (m_value.isInteger()) {
-            return m_value.getInteger(result);
+        if (m_value.isInteger() && m_value.getInteger(result)) {
+            return true;
         } else if (m_value.isDouble()) {
             double d;
             if (m_value.getDouble(d) && doubleIsIntegral(d)) {
@@ -467,6 +467,7 @@ public:
 
     bool asString(std::string &result) const override
     {
+        int64_t integerValue;
         if (m_value.isString()) {
             return m_value.getString(result);
         } else if (m_value.isNull()) {
@@ -490,12 +491,9 @@ public:
                 result = boolValue ? "true" : "false";
                 return true;
             }
-        } else if (m_value.isInteger()) {
-            int64_t integerValue;
-            if (m_value.getInteger(integerValue)) {
-                result = std::to_string(integerValue);
-                return true;
-            }
+        } else if (m_value.isInteger() && m_value.getInteger(integerValue)) {
+            result = std::to_string(integerValue);
+            return true;
         } else if (m_value.isDouble()) {
             double doubleValue;
             if (m_value.getDouble(doubleValue)) {
@@ -807,7 +805,8 @@ public:
 
     bool maybeInteger() const override
     {
-        if (m_value.isInteger()) {
+        int64_t integerValue;
+        if (m_value.isInteger() && m_value.getInteger(integerValue)) {
             return true;
         } else if (m_value.isDouble()) {
             double d;
-- 
2.43.0


From b4fc26e17293e12360bb67d7ff09cb78e3505dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 26/64] fix: JSON Pointer tokens are %-decoded before ~
 escapes, and malformed escapes and array indices are rejected

---
 include/valijson/internal/json_pointer.hpp | 34 +++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 98e2576..1c4da89 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -1,9 +1,10 @@
 #pragma once
 
 #include <algorithm>
-#include <cerrno>
 #include <cstddef>
+#include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -53,16 +54,13 @@ inline char decodePercentEncodedChar(const std::string &digits)
                 "expected two characters");
     }
 
-    errno = 0;
-    const char *begin = digits.c_str();
-    char *end = nullptr;
-    const unsigned long value = strtoul(begin, &end, 16);
-    if (end != begin && *end != '\0') {
+    // Note that strtoul would accept leading whitespace, and a sign
+    if (digits.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
         throwRuntimeError("Failed to decode %-encoded character '" +
                 digits + "'");
     }
 
-    return char(value);
+    return char(strtoul(digits.c_str(), nullptr, 16));
 }
 
 /**
@@ -98,11 +96,9 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 {
     std::string token(begin, end);
 
-    // Replace JSON Pointer-specific escaped character sequences
-    replaceAllInPlace(token, "~1", "/");
-    replaceAllInPlace(token, "~0", "~");
-
-    // Replace %-encoded character sequences with their actual characters
+    // Replace %-encoded character sequences with their actual characters. The
+    // JSON Pointer is what remains when these have been decoded, so they may
+    // contribute to the escaped character sequences handled below.
     for (size_t n = token.find('%'); n != std::string::npos;
             n = token.find('%', n + 1)) {
 
@@ -119,6 +115,10 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 #endif
     }
 
+    // Replace JSON Pointer-specific escaped character sequences
+    replaceAllInPlace(token, "~1", "/");
+    replaceAllInPlace(token, "~0", "~");
+
     return token;
 }
 
@@ -195,7 +195,15 @@ inline AdapterType resolveJsonPointer(
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
-            // Fragment must be non-negative integer
+            // Fragment must be non-negative integer, without any leading zeros
+            if (referenceToken.empty() ||
+                    referenceToken.find_first_not_of("0123456789") != std::string::npos ||
+                    (referenceToken.size() > 1 && referenceToken[0] == '0')) {
+                throwRuntimeError("Expected reference token to contain a "
+                        "non-negative integer to identify an element in the "
+                        "current array; actual token: " + referenceToken);
+            }
+
             const uint64_t index = std::stoul(referenceToken);
             typedef typename AdapterType::Array Array;
             const Array arr = node.asArray();
-- 
2.43.0


From fe3745459070ecf7f20a9e370531b16e778e4dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 27/64] fix: JSON Pointers in references are normalised, so
 that percent signs and equivalent spellings are resolved consistently

---
 include/valijson/schema_parser.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 92fb3dc..0d4fd9f 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -258,21 +258,32 @@ private:
     }
 
     /**
-     * Sanitise an optional JSON Pointer, trimming trailing slashes
+     * Sanitise an optional JSON Pointer, trimming trailing slashes, and making
+     * sure that equivalent JSON Pointers have the same representation
      */
     static std::string sanitiseJsonPointer(const std::optional<std::string>& input)
     {
-        if (input) {
-            if (*input == "/") {
-                return "";
-            }
+        // If the JSON Pointer is not set, assume that the URI points to
+        // the root of the document
+        if (!input || *input == "/") {
+            return "";
+        }
 
+        // Leave location-independent identifiers as they are
+        if (input->empty() || (*input)[0] != '/') {
             return *input;
         }
 
-        // If the JSON Pointer is not set, assume that the URI points to
-        // the root of the document
-        return "";
+        std::string result;
+        std::string::const_iterator begin = input->begin();
+        while (begin != input->end()) {
+            const std::string::const_iterator end = std::find(begin + 1, input->end(), '/');
+            result += "/" + escapeJsonPointerToken(
+                    internal::json_pointer::extractReferenceToken(begin + 1, end));
+            begin = end;
+        }
+
+        return result;
     }
 
     static std::string escapeJsonPointerToken(const std::string &token)
@@ -283,6 +294,9 @@ private:
                 result += "~0";
             } else if (c == '/') {
                 result += "~1";
+            } else if (c == '%') {
+                // JSON Pointers are always resolved as URI fragments
+                result += "%25";
             } else {
                 result += c;
             }
-- 
2.43.0


From fd06483d42904a397f15815c5a2a1f9f74abd61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 28/64] fix: an empty reference refers to the current document

---
 include/valijson/internal/json_reference.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/internal/json_reference.hpp b/include/valijson/internal/json_reference.hpp
index 16f2a81..182b84a 100644
--- a/include/valijson/internal/json_reference.hpp
+++ b/include/valijson/internal/json_reference.hpp
@@ -19,7 +19,7 @@ inline std::optional<std::string> getJsonReferenceUri(
     const std::string &jsonRef)
 {
     const size_t ptrPos = jsonRef.find('#');
-    if (ptrPos == 0) {
+    if (ptrPos == 0 || jsonRef.empty()) {
         // The JSON Reference does not contain a URI, but might contain a
         // JSON Pointer that refers to the current document
         return std::optional<std::string>();
-- 
2.43.0


From 8ab5eb16ea466e957ef00e6f61db7412da7d8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 29/64] fix: references resolve against the schema resource
 that contains them, follow nested references, and detect cycles

---
 include/valijson/schema_parser.hpp | 539 ++++++++++++++++-------------
 1 file changed, 289 insertions(+), 250 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 0d4fd9f..2a8ce5b 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <iostream>
 #include <optional>
@@ -118,11 +119,12 @@ public:
 
         typename DocumentCache<AdapterType>::Type docCache;
         SchemaRegistry schemaRegistry;
+        std::vector<std::string> visitedKeys;
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
             resolveThenPopulateSchema(schema, node, node, schema, std::optional<std::string>(), "", fetchDoc, nullptr,
-                    nullptr, docCache, schemaRegistry);
+                    nullptr, docCache, schemaRegistry, visitedKeys);
 #if VALIJSON_USE_EXCEPTIONS
         } catch (...) {
             freeDocumentCache<AdapterType>(docCache, freeDoc);
@@ -310,57 +312,134 @@ private:
         return m_version == kDraft7 ? "$id" : "id";
     }
 
+    /**
+     * @brief  Resolve a schema identifier within a resolution scope
+     *
+     * An empty fragment is not significant, so it is not part of the result.
+     */
     std::optional<std::string> resolveId(
             const std::optional<std::string> &currentScope,
             const std::string &id) const
     {
-        if (!currentScope || internal::uri::isUriAbsolute(id) ||
-                internal::uri::isUrn(id)) {
-            return id;
+        std::string result = id;
+        if (currentScope && !internal::uri::isUriAbsolute(id) &&
+                !internal::uri::isUrn(id)) {
+            result = internal::uri::resolveRelativeUri(*currentScope, id);
+        }
+
+        if (!result.empty() && result.back() == '#') {
+            result.pop_back();
         }
 
-        return internal::uri::resolveRelativeUri(*currentScope, id);
+        return result;
     }
 
+    /**
+     * @brief  Find the identifier of a schema, and the resolution scope within it
+     *
+     * An identifier that only contains a fragment names the schema, but does not
+     * change the resolution scope. An identifier is ignored when it is beside a
+     * JSON Reference.
+     *
+     * @param  node          node that may contain an identifier
+     * @param  currentScope  URI for current resolution scope
+     * @param  updatedScope  set to resolution scope for children of the node
+     * @param  id            set to resolved identifier, when there is one
+     *
+     * @return  \c true if the node has an identifier; \c false otherwise
+     */
+    template<typename AdapterType>
+    bool resolveSchemaId(
+            const AdapterType &node,
+            const std::optional<std::string> &currentScope,
+            std::optional<std::string> &updatedScope,
+            std::string &id) const
+    {
+        updatedScope = currentScope;
+
+        const typename AdapterType::Object object = node.asObject();
+        const typename AdapterType::Object::const_iterator itr = object.find(idKeyword());
+        if (itr == object.end() || !itr->second.isString()) {
+            return false;
+        }
+
+        const typename AdapterType::Object::const_iterator refItr = object.find("$ref");
+        if (refItr != object.end() && refItr->second.isString()) {
+            return false;
+        }
+
+        const std::string value = itr->second.asString();
+        const std::optional<std::string> resolved = resolveId(currentScope, value);
+        if (value.empty() || !resolved) {
+            return false;
+        }
+
+        if (value[0] == '#') {
+            if (value.size() == 1 || value[1] == '/') {
+                return false;
+            }
+        } else {
+            updatedScope = resolved;
+        }
+
+        id = *resolved;
+        return true;
+    }
+
+    /**
+     * @brief  Find the path of the schema that has a given identifier
+     *
+     * @param  node           node to search
+     * @param  isSchema       whether the node may be a schema, as opposed to an
+     *                        object whose members are schemas
+     * @param  currentScope   URI for current resolution scope
+     * @param  targetUri      identifier to search for
+     * @param  nodePath       JSON Pointer representing path to current node
+     * @param  foundPath      set to path of the schema, when it is found
+     *
+     * @return  \c true if the schema was found; \c false otherwise
+     */
     template<typename AdapterType>
     bool findSchemaById(
             const AdapterType &node,
+            const bool isSchema,
             const std::optional<std::string> &currentScope,
             const std::string &targetUri,
             const std::string &nodePath,
-            std::string &foundPath,
-            std::optional<std::string> &foundScope) const
+            std::string &foundPath) const
     {
-        std::optional<std::string> updatedScope = currentScope;
-
         if (node.isObject()) {
-            const typename AdapterType::Object object = node.asObject();
-            const typename AdapterType::Object::const_iterator itr =
-                    object.find(idKeyword());
-            if (itr != object.end() && itr->second.maybeString()) {
-                updatedScope = resolveId(currentScope, itr->second.asString());
-                if (updatedScope && *updatedScope == targetUri) {
-                    foundPath = nodePath;
-                    foundScope = currentScope;
-                    return true;
-                }
+            std::optional<std::string> updatedScope = currentScope;
+            std::string id;
+            if (isSchema && resolveSchemaId(node, currentScope, updatedScope, id) && id == targetUri) {
+                foundPath = nodePath;
+                return true;
             }
 
-            for (const typename AdapterType::ObjectMember member : object) {
-                const std::string childPath =
-                        nodePath + "/" + escapeJsonPointerToken(member.first);
-                if (findSchemaById(member.second, updatedScope, targetUri,
-                            childPath, foundPath, foundScope)) {
+            for (const typename AdapterType::ObjectMember member : node.asObject()) {
+                const std::string name = member.first;
+                if (isSchema && (name == "const" || name == "default" ||
+                        name == "enum" || name == "examples")) {
+                    // These contain values, rather than schemas
+                    continue;
+                }
+
+                const bool isMap = isSchema && (name == "definitions" ||
+                        name == "dependencies" || name == "patternProperties" ||
+                        name == "properties");
+                const std::string childPath = nodePath + "/" + escapeJsonPointerToken(name);
+                if (findSchemaById(member.second, !isMap, updatedScope, targetUri,
+                            childPath, foundPath)) {
                     return true;
                 }
             }
-        } else if (node.maybeArray()) {
+        } else if (node.isArray()) {
             size_t index = 0;
             for (const AdapterType item : node.asArray()) {
                 const std::string childPath = nodePath + "/" +
                         std::to_string(index++);
-                if (findSchemaById(item, updatedScope, targetUri, childPath,
-                            foundPath, foundScope)) {
+                if (findSchemaById(item, true, currentScope, targetUri, childPath,
+                            foundPath)) {
                     return true;
                 }
             }
@@ -369,6 +448,40 @@ private:
         return false;
     }
 
+    /**
+     * @brief  Find the path of the node that a reference refers to, provided that
+     *         it is in a given document
+     *
+     * @param  rootNode      root of the document
+     * @param  currentScope  URI for current resolution scope
+     * @param  uri           resolved URI part of the reference
+     * @param  fragment      fragment part of the reference, which can be a JSON
+     *                       Pointer or a location-independent identifier
+     * @param  path          set to path of the node, when it is found
+     *
+     * @return  \c true if the reference was resolved; \c false otherwise
+     */
+    template<typename AdapterType>
+    bool findReferencedPath(
+            const AdapterType &rootNode,
+            const std::optional<std::string> &currentScope,
+            const std::optional<std::string> &uri,
+            const std::string &fragment,
+            std::string &path) const
+    {
+        if (!fragment.empty() && fragment[0] != '/') {
+            return findSchemaById(rootNode, true, currentScope,
+                    (uri ? *uri : "") + "#" + fragment, "", path);
+        }
+
+        if (uri && findSchemaById(rootNode, true, currentScope, *uri, "", path)) {
+            path += fragment;
+            return true;
+        }
+
+        return false;
+    }
+
     template<typename AdapterType>
     bool findScopeForPath(
             const AdapterType &node,
@@ -382,17 +495,17 @@ private:
             return true;
         }
 
-        std::optional<std::string> updatedScope = currentScope;
+        // Only the ancestors of the target are relevant
+        if (targetPath.compare(0, nodePath.size() + 1, nodePath + "/") != 0) {
+            return false;
+        }
 
         if (node.isObject()) {
-            const typename AdapterType::Object object = node.asObject();
-            const typename AdapterType::Object::const_iterator itr =
-                    object.find(idKeyword());
-            if (itr != object.end() && itr->second.maybeString()) {
-                updatedScope = resolveId(currentScope, itr->second.asString());
-            }
+            std::optional<std::string> updatedScope;
+            std::string id;
+            resolveSchemaId(node, currentScope, updatedScope, id);
 
-            for (const typename AdapterType::ObjectMember member : object) {
+            for (const typename AdapterType::ObjectMember member : node.asObject()) {
                 const std::string childPath =
                         nodePath + "/" + escapeJsonPointerToken(member.first);
                 if (findScopeForPath(member.second, updatedScope, targetPath,
@@ -400,16 +513,14 @@ private:
                     return true;
                 }
             }
-        } else {
-            if (node.maybeArray()) {
-                size_t index = 0;
-                for (const AdapterType item : node.asArray()) {
-                    const std::string childPath = nodePath + "/" +
-                            std::to_string(index++);
-                    if (findScopeForPath(item, updatedScope, targetPath,
-                                childPath, foundScope)) {
-                        return true;
-                    }
+        } else if (node.isArray()) {
+            size_t index = 0;
+            for (const AdapterType item : node.asArray()) {
+                const std::string childPath = nodePath + "/" +
+                        std::to_string(index++);
+                if (findScopeForPath(item, currentScope, targetPath,
+                            childPath, foundScope)) {
+                    return true;
                 }
             }
         }
@@ -417,6 +528,90 @@ private:
         return false;
     }
 
+    /**
+     * @brief  Resolve a JSON Reference, fetching the document that it refers to
+     *         if necessary
+     *
+     * @param  rootNode        root of the document that contains the reference
+     * @param  currentScope    URI for current resolution scope
+     * @param  uri             resolved URI part of the reference
+     * @param  fragment        fragment part of the reference
+     * @param  fetchDoc        Function to fetch remote JSON documents (optional)
+     * @param  docCache        Cache of resolved and fetched remote documents
+     * @param  referencedScope set to resolution scope of the referenced node
+     * @param  referencedPath  set to path of the referenced node
+     *
+     * @return  root of the document that contains the referenced node
+     */
+    template<typename AdapterType>
+    AdapterType resolveReference(
+            const AdapterType &rootNode,
+            const std::optional<std::string> &currentScope,
+            const std::optional<std::string> &uri,
+            const std::string &fragment,
+            const typename FunctionPtrs<AdapterType>::FetchDoc &fetchDoc,
+            typename DocumentCache<AdapterType>::Type &docCache,
+            std::optional<std::string> &referencedScope,
+            std::string &referencedPath) const
+    {
+        const bool found = findReferencedPath(rootNode, currentScope, uri, fragment, referencedPath);
+        if (found || !uri || (currentScope && *uri == *currentScope)) {
+            if (!found) {
+                referencedPath = fragment;
+            }
+
+            referencedScope = currentScope;
+            findScopeForPath(rootNode, currentScope, referencedPath, "", referencedScope);
+            return rootNode;
+        }
+
+        // Have we seen this document before?
+        typename DocumentCache<AdapterType>::Type::const_iterator docCacheItr = docCache.find(*uri);
+        if (docCacheItr == docCache.end()) {
+            // Resolve reference against remote document
+            if (!fetchDoc) {
+                throwRuntimeError("Fetching of remote JSON References not enabled.");
+            }
+
+            // Returns a pointer to the remote document that was
+            // retrieved, or null if retrieval failed. This class
+            // will take ownership of the pointer, and call freeDoc
+            // when it is no longer needed.
+            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc = fetchDoc(*uri);
+
+            // Can't proceed without the remote document
+            if (!newDoc) {
+                throwRuntimeError("Failed to fetch referenced schema document: " + *uri);
+            }
+
+            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+
+            docCacheItr = docCache.insert(DocCacheValueType(*uri, newDoc)).first;
+        }
+
+        const AdapterType newRootNode(*docCacheItr->second);
+
+        if (!findReferencedPath(newRootNode, uri, uri, fragment, referencedPath)) {
+            referencedPath = fragment;
+        }
+
+        referencedScope = uri;
+        findScopeForPath(newRootNode, uri, referencedPath, "", referencedScope);
+        return newRootNode;
+    }
+
+    /**
+     * @brief  Construct the schema registry key for a node
+     *
+     * The '#' ensures that this will not be the same as the identifier of an
+     * unrelated schema.
+     */
+    static std::string makeRegistryKey(const std::optional<std::string> &scope,
+            const std::string &path)
+    {
+        return (scope ? *scope : "") + "#" + path;
+    }
+
     /**
      * @brief  Search the schema registry for a schema matching a given key
      *
@@ -517,7 +712,7 @@ private:
 
             // Construct a key that we can use to search the schema registry for
             // a schema corresponding to the current node
-            const std::string schemaRegistryKey = currentScope ? (*currentScope + nodePath) : nodePath;
+            const std::string schemaRegistryKey = makeRegistryKey(currentScope, nodePath);
 
             // Retrieve an existing schema from the registry if possible
             const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, schemaRegistryKey);
@@ -560,146 +755,46 @@ private:
         // the current resolution scope
         const std::optional<std::string> actualDocumentUri = resolveDocumentUri(currentScope, documentUri);
 
-        // Construct a key to search the schema registry for an existing schema
-        const std::string queryKey = actualDocumentUri ? (*actualDocumentUri + actualJsonPointer) : actualJsonPointer;
-
-        if (!actualJsonPointer.empty() && actualJsonPointer[0] != '/') {
-            const std::string idRef = actualDocumentUri ?
-                    (*actualDocumentUri + "#" + actualJsonPointer) :
-                    ("#" + actualJsonPointer);
-            std::string registeredPath;
-            std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, idRef,
-                        "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
-                        internal::json_pointer::resolveJsonPointerStrict(
-                                rootNode, registeredPath);
-
-                const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, idRef);
-                if (registeredPtr) {
-                    updateSchemaRegistry(schemaRegistry, newRegistryKeys, registeredPtr);
-                    return registeredPtr;
-                }
-
-                const Subschema *subschema = rootSchema.createSubschema();
-                newRegistryKeys.push_back(idRef);
-                updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
-
-                populateSchema(rootSchema, registeredRoot, registeredRoot,
-                        *subschema, registeredScope, "", fetchDoc,
-                        parentSubschema, ownName, docCache, schemaRegistry);
-
-                return subschema;
+        // Check for the second termination condition (found a $ref node that
+        // refers to the identifier of a schema in the schema registry)
+        if (actualDocumentUri && actualJsonPointer.empty()) {
+            const Subschema *identifiedPtr = querySchemaRegistry(schemaRegistry, *actualDocumentUri);
+            if (identifiedPtr) {
+                updateSchemaRegistry(schemaRegistry, newRegistryKeys, identifiedPtr);
+                return identifiedPtr;
             }
         }
 
-        // Check for the second termination condition (found a $ref node that
+        // Find out which document contains the referenced node, and where
+        std::optional<std::string> referencedScope;
+        std::string referencedPath;
+        const AdapterType referencedRoot = resolveReference(rootNode, currentScope,
+                actualDocumentUri, actualJsonPointer, fetchDoc, docCache,
+                referencedScope, referencedPath);
+
+        // Check for the third termination condition (found a $ref node that
         // already has an entry in the schema registry)
+        const std::string queryKey = makeRegistryKey(referencedScope, referencedPath);
         const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, queryKey);
         if (registeredPtr) {
             updateSchemaRegistry(schemaRegistry, newRegistryKeys, registeredPtr);
             return registeredPtr;
         }
 
-        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
-            std::string registeredPath;
-            std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
-                        "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
-                        internal::json_pointer::resolveJsonPointerStrict(
-                                rootNode, registeredPath);
-                const AdapterType referencedAdapter = actualJsonPointer.empty()
-                        ? registeredRoot
-                        : internal::json_pointer::resolveJsonPointerStrict(
-                                registeredRoot, actualJsonPointer);
-
-                std::optional<std::string> referencedScope = registeredScope;
-                if (!actualJsonPointer.empty()) {
-                    findScopeForPath(registeredRoot, registeredScope,
-                            actualJsonPointer, "", referencedScope);
-                }
-
-                const Subschema *subschema = rootSchema.createSubschema();
-                newRegistryKeys.push_back(queryKey);
-                updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
-
-                populateSchema(rootSchema, registeredRoot, referencedAdapter,
-                        *subschema, referencedScope, actualJsonPointer,
-                        fetchDoc, parentSubschema, ownName, docCache,
-                        schemaRegistry);
-
-                return subschema;
-            }
-
-            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc = nullptr;
-
-            // Have we seen this document before?
-            typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
-                    docCache.find(*actualDocumentUri);
-            if (docCacheItr == docCache.end()) {
-                // Resolve reference against remote document
-                if (!fetchDoc) {
-                    throwRuntimeError("Fetching of remote JSON References not enabled.");
-                }
-
-                // Returns a pointer to the remote document that was
-                // retrieved, or null if retrieval failed. This class
-                // will take ownership of the pointer, and call freeDoc
-                // when it is no longer needed.
-                newDoc = fetchDoc(*actualDocumentUri);
-
-                // Can't proceed without the remote document
-                if (!newDoc) {
-                    throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-                }
-
-                typedef typename DocumentCache<AdapterType>::Type::value_type
-                        DocCacheValueType;
-
-                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
-            } else {
-                newDoc = docCacheItr->second;
-            }
-
-            const AdapterType newRootNode(*newDoc);
-
-            // Find where we need to be in the document
-            const AdapterType &referencedAdapter =
-                    internal::json_pointer::resolveJsonPointerStrict(newRootNode,
-                            actualJsonPointer);
-
-            newRegistryKeys.push_back(queryKey);
-
-            // Populate the schema, starting from the referenced node, with
-            // nested JSON References resolved relative to the new root node
-            return makeOrReuseSchema(rootSchema, newRootNode, referencedAdapter,
-                    actualDocumentUri, actualJsonPointer, fetchDoc, parentSubschema,
-                    ownName, docCache, schemaRegistry, newRegistryKeys);
-
-        }
-
         if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
             throwRuntimeError("found cycle while resolving JSON reference");
         }
 
-        // JSON References in nested schema will be resolved relative to the
-        // current document
         const AdapterType &referencedAdapter =
                 internal::json_pointer::resolveJsonPointerStrict(
-                        rootNode, actualJsonPointer);
+                        referencedRoot, referencedPath);
 
         newRegistryKeys.push_back(queryKey);
 
-        std::optional<std::string> referencedScope = currentScope;
-        findScopeForPath(rootNode, currentScope, actualJsonPointer, "",
-                referencedScope);
-
         // Populate the schema, starting from the referenced node, with
         // nested JSON References resolved relative to the new root node
-        return makeOrReuseSchema(rootSchema, rootNode, referencedAdapter,
-                referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
+        return makeOrReuseSchema(rootSchema, referencedRoot, referencedAdapter,
+                referencedScope, referencedPath, fetchDoc, parentSubschema,
                 ownName, docCache, schemaRegistry, newRegistryKeys);
     }
 
@@ -821,19 +916,14 @@ private:
         typename AdapterType::Object::const_iterator itr(object.end());
 
         // Check for schema identifier attribute and update current scope.
-        std::optional<std::string> updatedScope;
-        bool foundId = false;
         if ((itr = object.find(idKeyword())) != object.end() && itr->second.maybeString()) {
-            foundId = true;
-            const std::string id = itr->second.asString();
             rootSchema.setSubschemaId(&subschema, itr->second.asString());
-            updatedScope = resolveId(currentScope, id);
-        } else {
-            updatedScope = currentScope;
         }
 
-        if (foundId && updatedScope) {
-            schemaRegistry.emplace(*updatedScope, &subschema);
+        std::optional<std::string> updatedScope;
+        std::string resolvedId;
+        if (resolveSchemaId(node, currentScope, updatedScope, resolvedId)) {
+            schemaRegistry.emplace(resolvedId, &subschema);
         }
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
@@ -1207,6 +1297,7 @@ private:
      *                        the 'required' keyword in Draft 3
      * @param  docCache       Cache of resolved and fetched remote documents
      * @param  schemaRegistry Registry of populated schemas
+     * @param  visitedKeys    Registry keys of references that have been followed
      */
     template<typename AdapterType>
     void resolveThenPopulateSchema(
@@ -1220,7 +1311,8 @@ private:
         const Subschema *parentSchema,
         const std::string *ownName,
         typename DocumentCache<AdapterType>::Type &docCache,
-        SchemaRegistry &schemaRegistry)
+        SchemaRegistry &schemaRegistry,
+        std::vector<std::string> &visitedKeys)
     {
         std::string jsonRef;
         if (!extractJsonReference(node, jsonRef)) {
@@ -1240,87 +1332,34 @@ private:
         const std::optional<std::string> actualDocumentUri =
                 resolveDocumentUri(currentScope, documentUri);
 
-        if (!actualJsonPointer.empty() && actualJsonPointer[0] != '/') {
-            const std::string idRef = actualDocumentUri ?
-                    (*actualDocumentUri + "#" + actualJsonPointer) :
-                    ("#" + actualJsonPointer);
-            std::string registeredPath;
-            std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, idRef,
-                        "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
-                        internal::json_pointer::resolveJsonPointerStrict(
-                                rootNode, registeredPath);
-
-                resolveThenPopulateSchema(rootSchema, registeredRoot,
-                        registeredRoot, subschema, registeredScope,
-                        "", fetchDoc, parentSchema, ownName,
-                        docCache, schemaRegistry);
-                return;
-            }
+        if (!actualDocumentUri && actualJsonPointer.empty()) {
+            throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
         }
 
-        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
-            std::string registeredPath;
-            std::optional<std::string> registeredScope;
-            if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
-                        "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
-                        internal::json_pointer::resolveJsonPointerStrict(
-                                rootNode, registeredPath);
-                const AdapterType referencedAdapter = actualJsonPointer.empty()
-                        ? registeredRoot
-                        : internal::json_pointer::resolveJsonPointerStrict(
-                                registeredRoot, actualJsonPointer);
-
-                resolveThenPopulateSchema(rootSchema, registeredRoot,
-                        referencedAdapter, subschema, registeredScope,
-                        actualJsonPointer, fetchDoc,
-                        parentSchema, ownName, docCache, schemaRegistry);
-                return;
-            }
-
-            // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
-            }
+        std::optional<std::string> referencedScope;
+        std::string referencedPath;
+        const AdapterType referencedRoot = resolveReference(rootNode, currentScope,
+                actualDocumentUri, actualJsonPointer, fetchDoc, docCache,
+                referencedScope, referencedPath);
 
-            const typename DocumentCache<AdapterType>::DocumentType *newDoc = fetchDoc(*actualDocumentUri);
-
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
+        const AdapterType &referencedAdapter =
+                internal::json_pointer::resolveJsonPointerStrict(
+                        referencedRoot, referencedPath);
+
+        // TODO: Need to detect degenerate circular references in documents that
+        // do not have a URI (see issue #200)
+        if (referencedScope) {
+            const std::string key = makeRegistryKey(referencedScope, referencedPath);
+            if (std::find(visitedKeys.begin(), visitedKeys.end(), key) != visitedKeys.end()) {
+                throwRuntimeError("found cycle while resolving JSON reference");
             }
 
-            // Add to document cache
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
-
-            docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
-            const AdapterType newRootNode(*newDoc);
-
-            const AdapterType &referencedAdapter =
-                internal::json_pointer::resolveJsonPointerStrict(newRootNode, actualJsonPointer);
-
-            // TODO: Need to detect degenerate circular references
-            resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
-                    subschema, actualDocumentUri, actualJsonPointer, fetchDoc,
-                    parentSchema, ownName, docCache, schemaRegistry);
-
-        } else if (!actualJsonPointer.empty()) {
-            const AdapterType &referencedAdapter =
-                    internal::json_pointer::resolveJsonPointerStrict(rootNode, actualJsonPointer);
-
-            std::optional<std::string> referencedScope = currentScope;
-            findScopeForPath(rootNode, currentScope, actualJsonPointer, "",
-                    referencedScope);
-
-            resolveThenPopulateSchema(rootSchema, rootNode, referencedAdapter,
-                    subschema, referencedScope, actualJsonPointer, fetchDoc,
-                    parentSchema, ownName, docCache, schemaRegistry);
-        } else {
-            throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
+            visitedKeys.push_back(key);
         }
+
+        resolveThenPopulateSchema(rootSchema, referencedRoot, referencedAdapter,
+                subschema, referencedScope, referencedPath, fetchDoc,
+                parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
     }
 
     /**
-- 
2.43.0


From d760b5a78c4b255c063dae7346f9cc3355af9c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 30/64] fix: an insignificant '#' at the end of a URN
 identifier does not make it relative

---
 include/valijson/schema_parser.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 2a8ce5b..4827e6b 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -322,15 +322,15 @@ private:
             const std::string &id) const
     {
         std::string result = id;
-        if (currentScope && !internal::uri::isUriAbsolute(id) &&
-                !internal::uri::isUrn(id)) {
-            result = internal::uri::resolveRelativeUri(*currentScope, id);
-        }
-
         if (!result.empty() && result.back() == '#') {
             result.pop_back();
         }
 
+        if (currentScope && !internal::uri::isUriAbsolute(result) &&
+                !internal::uri::isUrn(result)) {
+            result = internal::uri::resolveRelativeUri(*currentScope, result);
+        }
+
         return result;
     }
 
-- 
2.43.0


From d747dddc4933fe5d1f45deafe8619ebf9ebae0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 31/64] fix: identifiers are found wherever their document was
 loaded from, and references to them never fetch a document again

---
 include/valijson/schema_parser.hpp | 220 +++++++++++++++--------------
 1 file changed, 116 insertions(+), 104 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 4827e6b..521b878 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -120,6 +120,7 @@ public:
         typename DocumentCache<AdapterType>::Type docCache;
         SchemaRegistry schemaRegistry;
         std::vector<std::string> visitedKeys;
+        docCache.rootNode = &node;
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
@@ -142,12 +143,37 @@ private:
 
     ConstraintBuilders constraintBuilders;
 
+    /**
+     * @brief  Where to find a schema that has an identifier
+     */
+    struct SchemaLocation
+    {
+        /// URI that the document was fetched from, unless it is being parsed
+        std::optional<std::string> documentUri;
+
+        /// JSON Pointer representing path to the schema
+        std::string path;
+    };
+
     template<typename AdapterType>
     struct DocumentCache
     {
         typedef typename adapters::AdapterTraits<AdapterType>::DocumentType DocumentType;
 
-        typedef std::map<std::string, const DocumentType*> Type;
+        struct Type
+        {
+            /// Fetched documents, by URI
+            std::map<std::string, const DocumentType*> documents;
+
+            /// Locations of schemas in all known documents, by identifier
+            std::map<std::string, SchemaLocation> locations;
+
+            /// Root of the document that is being parsed
+            const AdapterType *rootNode = nullptr;
+
+            /// Whether the document that is being parsed has been indexed
+            bool indexed = false;
+        };
     };
 
     /**
@@ -163,10 +189,10 @@ private:
     void freeDocumentCache(const typename DocumentCache<AdapterType>::Type
             &docCache, typename FunctionPtrs<AdapterType>::FreeDoc freeDoc)
     {
-        typedef typename DocumentCache<AdapterType>::Type DocCacheType;
-
-        for (const typename DocCacheType::value_type &v : docCache) {
-            freeDoc(v.second);
+        for (const auto &v : docCache.documents) {
+            if (v.second) {
+                freeDoc(v.second);
+            }
         }
     }
 
@@ -326,6 +352,10 @@ private:
             result.pop_back();
         }
 
+        if (currentScope && !result.empty() && result[0] == '#') {
+            return currentScope->substr(0, currentScope->find('#')) + result;
+        }
+
         if (currentScope && !internal::uri::isUriAbsolute(result) &&
                 !internal::uri::isUrn(result)) {
             result = internal::uri::resolveRelativeUri(*currentScope, result);
@@ -387,33 +417,30 @@ private:
     }
 
     /**
-     * @brief  Find the path of the schema that has a given identifier
+     * @brief  Index the identifiers of all schemas in a document
      *
      * @param  node           node to search
      * @param  isSchema       whether the node may be a schema, as opposed to an
      *                        object whose members are schemas
      * @param  currentScope   URI for current resolution scope
-     * @param  targetUri      identifier to search for
+     * @param  documentUri    URI that the document was fetched from, if any
      * @param  nodePath       JSON Pointer representing path to current node
-     * @param  foundPath      set to path of the schema, when it is found
-     *
-     * @return  \c true if the schema was found; \c false otherwise
+     * @param  docCache       Cache in which identifiers will be recorded
      */
     template<typename AdapterType>
-    bool findSchemaById(
+    void indexIdentifiers(
             const AdapterType &node,
             const bool isSchema,
             const std::optional<std::string> &currentScope,
-            const std::string &targetUri,
+            const std::optional<std::string> &documentUri,
             const std::string &nodePath,
-            std::string &foundPath) const
+            typename DocumentCache<AdapterType>::Type &docCache) const
     {
         if (node.isObject()) {
             std::optional<std::string> updatedScope = currentScope;
             std::string id;
-            if (isSchema && resolveSchemaId(node, currentScope, updatedScope, id) && id == targetUri) {
-                foundPath = nodePath;
-                return true;
+            if (isSchema && resolveSchemaId(node, currentScope, updatedScope, id)) {
+                docCache.locations.emplace(id, SchemaLocation{documentUri, nodePath});
             }
 
             for (const typename AdapterType::ObjectMember member : node.asObject()) {
@@ -428,58 +455,18 @@ private:
                         name == "dependencies" || name == "patternProperties" ||
                         name == "properties");
                 const std::string childPath = nodePath + "/" + escapeJsonPointerToken(name);
-                if (findSchemaById(member.second, !isMap, updatedScope, targetUri,
-                            childPath, foundPath)) {
-                    return true;
-                }
+                indexIdentifiers(member.second, !isMap, updatedScope, documentUri,
+                        childPath, docCache);
             }
         } else if (node.isArray()) {
             size_t index = 0;
             for (const AdapterType item : node.asArray()) {
                 const std::string childPath = nodePath + "/" +
                         std::to_string(index++);
-                if (findSchemaById(item, true, currentScope, targetUri, childPath,
-                            foundPath)) {
-                    return true;
-                }
+                indexIdentifiers(item, true, currentScope, documentUri, childPath,
+                        docCache);
             }
         }
-
-        return false;
-    }
-
-    /**
-     * @brief  Find the path of the node that a reference refers to, provided that
-     *         it is in a given document
-     *
-     * @param  rootNode      root of the document
-     * @param  currentScope  URI for current resolution scope
-     * @param  uri           resolved URI part of the reference
-     * @param  fragment      fragment part of the reference, which can be a JSON
-     *                       Pointer or a location-independent identifier
-     * @param  path          set to path of the node, when it is found
-     *
-     * @return  \c true if the reference was resolved; \c false otherwise
-     */
-    template<typename AdapterType>
-    bool findReferencedPath(
-            const AdapterType &rootNode,
-            const std::optional<std::string> &currentScope,
-            const std::optional<std::string> &uri,
-            const std::string &fragment,
-            std::string &path) const
-    {
-        if (!fragment.empty() && fragment[0] != '/') {
-            return findSchemaById(rootNode, true, currentScope,
-                    (uri ? *uri : "") + "#" + fragment, "", path);
-        }
-
-        if (uri && findSchemaById(rootNode, true, currentScope, *uri, "", path)) {
-            path += fragment;
-            return true;
-        }
-
-        return false;
     }
 
     template<typename AdapterType>
@@ -554,50 +541,87 @@ private:
             std::optional<std::string> &referencedScope,
             std::string &referencedPath) const
     {
-        const bool found = findReferencedPath(rootNode, currentScope, uri, fragment, referencedPath);
-        if (found || !uri || (currentScope && *uri == *currentScope)) {
-            if (!found) {
-                referencedPath = fragment;
-            }
+        typedef std::map<std::string, SchemaLocation> Locations;
+
+        if (!docCache.indexed) {
+            indexIdentifiers(*docCache.rootNode, true, std::optional<std::string>(),
+                    std::optional<std::string>(), "", docCache);
+            docCache.indexed = true;
+        }
 
-            referencedScope = currentScope;
-            findScopeForPath(rootNode, currentScope, referencedPath, "", referencedScope);
-            return rootNode;
+        referencedPath = fragment;
+        referencedScope = currentScope;
+
+        // A fragment that is not a JSON Pointer is a location-independent identifier
+        const bool isName = !fragment.empty() && fragment[0] != '/';
+        const std::string key = (uri ? *uri : "") + (isName ? "#" + fragment : "");
+        Locations::const_iterator itr = docCache.locations.end();
+        if (uri || isName) {
+            itr = docCache.locations.find(key);
         }
 
-        // Have we seen this document before?
-        typename DocumentCache<AdapterType>::Type::const_iterator docCacheItr = docCache.find(*uri);
-        if (docCacheItr == docCache.end()) {
-            // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
+        if (itr == docCache.locations.end()) {
+            if (!uri || (currentScope && *uri == *currentScope)) {
+                findScopeForPath(rootNode, currentScope, referencedPath, "", referencedScope);
+                return rootNode;
             }
 
-            // Returns a pointer to the remote document that was
-            // retrieved, or null if retrieval failed. This class
-            // will take ownership of the pointer, and call freeDoc
-            // when it is no longer needed.
-            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc = fetchDoc(*uri);
+            if (docCache.locations.find(*uri) == docCache.locations.end()) {
+                fetchDocument<AdapterType>(*uri, fetchDoc, docCache);
+            }
 
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *uri);
+            itr = docCache.locations.find(key);
+            if (itr == docCache.locations.end()) {
+                throwRuntimeError("Failed to find referenced schema: " + key);
             }
+        }
+
+        const SchemaLocation &location = itr->second;
+        referencedPath = location.path + (isName ? "" : fragment);
+        referencedScope = location.documentUri;
 
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+        const AdapterType documentRoot = location.documentUri ?
+                AdapterType(*docCache.documents.find(*location.documentUri)->second) :
+                *docCache.rootNode;
 
-            docCacheItr = docCache.insert(DocCacheValueType(*uri, newDoc)).first;
+        findScopeForPath(documentRoot, location.documentUri, referencedPath, "", referencedScope);
+        return documentRoot;
+    }
+
+    /**
+     * @brief  Fetch a document, and index the identifiers of its schemas
+     *
+     * @param  uri       URI of the document
+     * @param  fetchDoc  Function to fetch remote JSON documents (optional)
+     * @param  docCache  Cache that the document will be added to
+     */
+    template<typename AdapterType>
+    void fetchDocument(
+            const std::string &uri,
+            const typename FunctionPtrs<AdapterType>::FetchDoc &fetchDoc,
+            typename DocumentCache<AdapterType>::Type &docCache) const
+    {
+        if (!fetchDoc) {
+            throwRuntimeError("Fetching of remote JSON References not enabled.");
         }
 
-        const AdapterType newRootNode(*docCacheItr->second);
+        // Reserve a place in the cache first, so that the document can't be lost
+        const typename FunctionPtrs<AdapterType>::DocumentType *&newDoc = docCache.documents[uri];
 
-        if (!findReferencedPath(newRootNode, uri, uri, fragment, referencedPath)) {
-            referencedPath = fragment;
+        // Returns a pointer to the remote document that was
+        // retrieved, or null if retrieval failed. This class
+        // will take ownership of the pointer, and call freeDoc
+        // when it is no longer needed.
+        newDoc = fetchDoc(uri);
+
+        // Can't proceed without the remote document
+        if (!newDoc) {
+            throwRuntimeError("Failed to fetch referenced schema document: " + uri);
         }
 
-        referencedScope = uri;
-        findScopeForPath(newRootNode, uri, referencedPath, "", referencedScope);
-        return newRootNode;
+        docCache.locations.emplace(uri, SchemaLocation{uri, ""});
+        indexIdentifiers(AdapterType(*newDoc), true, std::optional<std::string>(uri),
+                std::optional<std::string>(uri), "", docCache);
     }
 
     /**
@@ -755,16 +779,6 @@ private:
         // the current resolution scope
         const std::optional<std::string> actualDocumentUri = resolveDocumentUri(currentScope, documentUri);
 
-        // Check for the second termination condition (found a $ref node that
-        // refers to the identifier of a schema in the schema registry)
-        if (actualDocumentUri && actualJsonPointer.empty()) {
-            const Subschema *identifiedPtr = querySchemaRegistry(schemaRegistry, *actualDocumentUri);
-            if (identifiedPtr) {
-                updateSchemaRegistry(schemaRegistry, newRegistryKeys, identifiedPtr);
-                return identifiedPtr;
-            }
-        }
-
         // Find out which document contains the referenced node, and where
         std::optional<std::string> referencedScope;
         std::string referencedPath;
@@ -772,7 +786,7 @@ private:
                 actualDocumentUri, actualJsonPointer, fetchDoc, docCache,
                 referencedScope, referencedPath);
 
-        // Check for the third termination condition (found a $ref node that
+        // Check for the second termination condition (found a $ref node that
         // already has an entry in the schema registry)
         const std::string queryKey = makeRegistryKey(referencedScope, referencedPath);
         const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, queryKey);
@@ -922,9 +936,7 @@ private:
 
         std::optional<std::string> updatedScope;
         std::string resolvedId;
-        if (resolveSchemaId(node, currentScope, updatedScope, resolvedId)) {
-            schemaRegistry.emplace(resolvedId, &subschema);
-        }
+        resolveSchemaId(node, currentScope, updatedScope, resolvedId);
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
         if ((itr = object.find("type")) != object.end()) {
-- 
2.43.0


From 1c413e092e5afe697863dd7847a8158609a6a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 32/64] fix: names and patterns that contain a NUL character
 are not cut short

---
 .../valijson/adapters/rapidjson_adapter.hpp   |  5 ++--
 .../constraints/concrete_constraints.hpp      | 25 +++++++++++--------
 include/valijson/validation_visitor.hpp       | 15 +++++------
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 224822c..587bc5d 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -855,7 +855,7 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         for (typename ValueType::ConstMemberIterator itr = m_value.MemberBegin(); itr != m_value.MemberEnd(); ++itr) {
             const size_t memberNameLength = itr->name.GetStringLength();
             if (memberNameLength == propertyNameLength &&
-                    strncmp(itr->name.GetString(), propertyName.c_str(), itr->name.GetStringLength()) == 0) {
+                    propertyName.compare(0, propertyNameLength, itr->name.GetString(), memberNameLength) == 0) {
                 return itr;
             }
         }
@@ -863,7 +863,8 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         return m_value.MemberEnd();
     }
 
-    return m_value.FindMember(propertyName.c_str());      // Times are good.
+    return m_value.FindMember(ValueType(rapidjson::StringRef(
+            propertyName.data(), static_cast<rapidjson::SizeType>(propertyName.size()))));      // Times are good.
 }
 
 typedef GenericRapidJsonAdapter<> RapidJsonAdapter;
diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ba13343..ebea406 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -263,14 +263,14 @@ public:
             const StringType &propertyName,
             const StringType &dependencyName)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
                     key, PropertySet(std::less<String>(), m_allocator))).first;
         }
 
-        itr->second.insert(String(dependencyName.c_str(), m_allocator));
+        itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
 
         return *this;
     }
@@ -280,7 +280,7 @@ public:
             const StringType &propertyName,
             const ContainerType &dependencyNames)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
@@ -289,7 +289,7 @@ public:
 
         typedef typename ContainerType::value_type ValueType;
         for (const ValueType &dependencyName : dependencyNames) {
-            itr->second.insert(String(dependencyName.c_str(), m_allocator));
+            itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
         }
 
         return *this;
@@ -299,7 +299,7 @@ public:
     DependenciesConstraint & addSchemaDependency(const StringType &propertyName, const Subschema *schemaDependency)
     {
         if (m_schemaDependencies.insert(SchemaDependencies::value_type(
-                String(propertyName.c_str(), m_allocator),
+                String(propertyName.data(), propertyName.size(), m_allocator),
                 schemaDependency)).second) {
             return *this;
         }
@@ -913,7 +913,7 @@ public:
     template<typename AllocatorType>
     bool getPattern(std::basic_string<char, std::char_traits<char>, AllocatorType> &result) const
     {
-        result.assign(m_pattern.c_str());
+        result.assign(m_pattern.data(), m_pattern.size());
         return true;
     }
 
@@ -921,13 +921,13 @@ public:
     std::basic_string<char, std::char_traits<char>, AllocatorType> getPattern(
             const AllocatorType &alloc = AllocatorType()) const
     {
-        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.c_str(), alloc);
+        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.data(), m_pattern.size(), alloc);
     }
 
     template<typename AllocatorType>
     void setPattern(const std::basic_string<char, std::char_traits<char>, AllocatorType> &pattern)
     {
-        m_pattern.assign(pattern.c_str());
+        m_pattern.assign(pattern.data(), pattern.size());
     }
 
 private:
@@ -997,7 +997,8 @@ public:
             std::char_traits<char>, AllocatorType> &patternProperty,
             const Subschema *subschema)
     {
-        return addPatternPropertySubschema(patternProperty.c_str(), subschema);
+        return m_patternProperties.insert(PropertySchemaMap::value_type(
+                String(patternProperty.data(), patternProperty.size(), m_allocator), subschema)).second;
     }
 
     bool addPropertySubschema(const char *propertyName,
@@ -1012,7 +1013,8 @@ public:
             std::char_traits<char>, AllocatorType> &propertyName,
             const Subschema *subschema)
     {
-        return addPropertySubschema(propertyName.c_str(), subschema);
+        return m_properties.insert(PropertySchemaMap::value_type(
+                String(propertyName.data(), propertyName.size(), m_allocator), subschema)).second;
     }
 
     template<typename FunctorType>
@@ -1107,7 +1109,8 @@ public:
     template<typename AllocatorType>
     bool addRequiredProperty(const std::basic_string<char, std::char_traits<char>, AllocatorType> &propertyName)
     {
-        return addRequiredProperty(propertyName.c_str());
+        return m_requiredProperties.insert(String(propertyName.data(), propertyName.size(),
+                Allocator::rebind<char>::other(m_allocator))).second;
     }
 
     template<typename FunctorType>
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index c7b9e77..1d8937e 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1499,14 +1499,15 @@ private:
         template<typename StringType>
         bool operator()(const StringType &property) const
         {
-            if (m_object.find(property.c_str()) == m_object.end()) {
+            const std::string propertyKey(property.data(), property.size());
+            if (m_object.find(propertyKey) == m_object.end()) {
                 if (m_validated) {
                     *m_validated = false;
                 }
 
                 if (m_results) {
                     m_results->pushError(m_path, "Missing required property '" +
-                            std::string(property.c_str()) + "'.");
+                            propertyKey + "'.");
                 }
 
                 return m_continueOnFailure;
@@ -1542,14 +1543,14 @@ private:
         template<typename StringType, typename ContainerType>
         bool operator()(const StringType &propertyName, const ContainerType &dependencyNames) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
 
             typedef typename ContainerType::value_type ValueType;
             for (const ValueType &dependencyName : dependencyNames) {
-                const std::string dependencyNameKey(dependencyName.c_str());
+                const std::string dependencyNameKey(dependencyName.data(), dependencyName.size());
                 if (m_object.find(dependencyNameKey) == m_object.end()) {
                     if (m_validated) {
                         *m_validated = false;
@@ -1760,7 +1761,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &patternProperty, const Subschema *subschema) const
         {
-            const std::string patternPropertyStr(patternProperty.c_str());
+            const std::string patternPropertyStr(patternProperty.data(), patternProperty.size());
 
             // It would be nice to store pre-allocated regex objects in the
             // PropertiesConstraint. does internal::regex currently support
@@ -1865,7 +1866,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *subschema) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             const typename AdapterType::Object::const_iterator itr = m_object.find(propertyNameKey);
             if (itr == m_object.end()) {
                 return m_continueIfUnmatched;
@@ -1934,7 +1935,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *schemaDependency) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
-- 
2.43.0


From 31d86b61fb4f534393bae2d5e5cb52244e694443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:48 +0000
Subject: [PATCH 33/64] fix: absolute URIs and URNs are recognised by their
 grammar, without a regular expression

---
 include/valijson/internal/uri.hpp | 83 +++++++++++++++++++++++++++----
 1 file changed, 74 insertions(+), 9 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index b030743..658545b 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -5,12 +5,20 @@
 #include <string>
 #include <vector>
 
-#include <valijson/internal/regex.hpp>
-
 namespace valijson {
 namespace internal {
 namespace uri {
 
+inline bool isAsciiAlpha(char c)
+{
+    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+}
+
+inline bool isAsciiAlphanumeric(char c)
+{
+    return isAsciiAlpha(c) || (c >= '0' && c <= '9');
+}
+
 /**
  * @brief  Check whether a URI is absolute, returns pos just past end if found
  */
@@ -19,10 +27,19 @@ inline std::optional<size_t> parseScheme(const std::string &uri)
     constexpr auto marker = "://";
 
     const auto pos = uri.find(marker);
+    if (pos == std::string::npos || !isAsciiAlpha(uri[0])) {
+        return std::nullopt;
+    }
+
+    // A marker that is preceded by anything else than a scheme name is part of
+    // a path, a query or a fragment
+    for (size_t i = 0; i < pos; ++i) {
+        if (!isAsciiAlphanumeric(uri[i]) && uri[i] != '+' && uri[i] != '-' && uri[i] != '.') {
+            return std::nullopt;
+        }
+    }
 
-    return pos == std::string::npos
-        ? std::nullopt
-        : std::make_optional<size_t>(pos + 3);
+    return std::make_optional<size_t>(pos + 3);
 }
 
 /**
@@ -40,11 +57,59 @@ inline bool isUriAbsolute(const std::string &uri)
  *
  * Example: urn:isbn:978-3-16-148410-0
  */
-inline bool isUrn(const std::string &documentUri) {
-  static const internal::regex pattern(
-      "^((urn)|(URN)):(?!urn:)([a-zA-Z0-9][a-zA-Z0-9-]{1,31})(:[-a-zA-Z0-9\\\\._~%!$&'()\\/*+,;=]+)+(\\?[-a-zA-Z0-9\\\\._~%!$&'()\\/*+,;:=]+){0,1}(#[-a-zA-Z0-9\\\\._~%!$&'()\\/*+,;:=]+){0,1}$");
+inline bool isUrn(const std::string &documentUri)
+{
+    const auto lower = [&documentUri](size_t i) {
+        const char c = documentUri[i];
+        return (c >= 'A' && c <= 'Z') ? char(c - 'A' + 'a') : c;
+    };
+
+    const size_t length = documentUri.size();
+    if (length < 4 || lower(0) != 'u' || lower(1) != 'r' || lower(2) != 'n' || documentUri[3] != ':') {
+        return false;
+    }
+
+    // Namespace identifier: 2 to 32 letters, digits and (inner) hyphens
+    const size_t nidEnd = documentUri.find(':', 4);
+    if (nidEnd == std::string::npos || nidEnd < 4 + 2 || nidEnd > 4 + 32 ||
+            documentUri[4] == '-' || documentUri[nidEnd - 1] == '-') {
+        return false;
+    }
+    for (size_t i = 4; i < nidEnd; ++i) {
+        if (!isAsciiAlphanumeric(documentUri[i]) && documentUri[i] != '-') {
+            return false;
+        }
+    }
+    if (nidEnd == 4 + 3 && lower(4) == 'u' && lower(5) == 'r' && lower(6) == 'n') {
+        return false;
+    }
+
+    // Namespace specific string, optionally followed by a query and a fragment
+    static const std::string marks("-._~!$&'()*+,;=:@/");
+    const auto isHexDigit = [](char c) {
+        return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
+    };
+    enum { kName, kQuery, kFragment } part = kName;
+    for (size_t i = nidEnd + 1; i < length; ++i) {
+        const char c = documentUri[i];
+        const bool first = i == nidEnd + 1;
+        if (c == '#' && !first && part != kFragment) {
+            part = kFragment;
+        } else if (c == '?' && !first) {
+            if (part == kName) {
+                part = kQuery;
+            }
+        } else if (c == '%') {
+            if (i + 2 >= length || !isHexDigit(documentUri[i + 1]) || !isHexDigit(documentUri[i + 2])) {
+                return false;
+            }
+            i += 2;
+        } else if ((c == '/' && first) || (!isAsciiAlphanumeric(c) && marks.find(c) == std::string::npos)) {
+            return false;
+        }
+    }
 
-  return internal::regex_match(documentUri, pattern);
+    return nidEnd + 1 < length;
 }
 
 /**
-- 
2.43.0


From b06a4bed7a3fb9574ce02431c66ef109703a9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:32 +0000
Subject: [PATCH 34/64] fix: reading a PicoJSON integer as a double does not
 convert the document

---
 include/valijson/adapters/picojson_adapter.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/valijson/adapters/picojson_adapter.hpp b/include/valijson/adapters/picojson_adapter.hpp
index 44403ae..22bdbe5 100644
--- a/include/valijson/adapters/picojson_adapter.hpp
+++ b/include/valijson/adapters/picojson_adapter.hpp
@@ -330,6 +330,12 @@ public:
 
     bool getDouble(double &result) const
     {
+        // Reading an integer through get<double> would convert it in place
+        if (m_value.is<int64_t>()) {
+            result = static_cast<double>(m_value.get<int64_t>());
+            return true;
+        }
+
         if (m_value.is<double>()) {
             result = m_value.get<double>();
             return true;
-- 
2.43.0


From fe6237db5dcf16bdd37255649624d277acaf86da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 35/64] fix: YAML getters refuse scalars that do not convert
 instead of throwing

---
 .../valijson/adapters/yaml_cpp_adapter.hpp    | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/include/valijson/adapters/yaml_cpp_adapter.hpp b/include/valijson/adapters/yaml_cpp_adapter.hpp
index ab87272..c990e33 100644
--- a/include/valijson/adapters/yaml_cpp_adapter.hpp
+++ b/include/valijson/adapters/yaml_cpp_adapter.hpp
@@ -310,31 +310,17 @@ class YamlCppValue
 
     bool getBool(bool &result) const
     {
-        if (m_value.IsScalar()) {
-            result = m_value.as<bool>();
-            return true;
-        }
-
-        return false;
+        return m_value.IsScalar() && YAML::convert<bool>::decode(m_value, result);
     }
 
     bool getDouble(double &result) const
     {
-        if (m_value.IsScalar()) {
-            result = m_value.as<double>();
-            return true;
-        }
-
-        return false;
+        return m_value.IsScalar() && YAML::convert<double>::decode(m_value, result);
     }
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.IsScalar()) {
-            result = m_value.as<int64_t>();
-            return true;
-        }
-        return false;
+        return m_value.IsScalar() && YAML::convert<int64_t>::decode(m_value, result);
     }
 
     /**
-- 
2.43.0


From 8df795d84d28a3c44d0fb527957b69b780c865f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 36/64] fix: strict comparison does not round integers

---
 include/valijson/internal/basic_adapter.hpp | 29 ++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index bd32ed5..2e76bc6 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -512,7 +512,7 @@ public:
         } else if (isBool() || (!strict && maybeBool())) {
             return (other.isBool() || (!strict && other.maybeBool())) && other.asBool() == asBool();
         } else if (isNumber() && strict) {
-            return other.isNumber() && other.getNumber() == getNumber();
+            return other.isNumber() && numbersEqual(*this, other);
         } else if (!strict && maybeDouble()) {
             return (other.maybeDouble() && other.asDouble() == asDouble());
         } else if (!strict && maybeInteger()) {
@@ -880,6 +880,33 @@ public:
 
 private:
 
+    /**
+     * @brief   Compare two numbers by value, without rounding integers
+     */
+    static bool numbersEqual(const Adapter &lhs, const Adapter &rhs)
+    {
+        int64_t lhsInteger = 0;
+        int64_t rhsInteger = 0;
+        const bool lhsIsInteger = lhs.isInteger() && lhs.getInteger(lhsInteger);
+        const bool rhsIsInteger = rhs.isInteger() && rhs.getInteger(rhsInteger);
+        if (lhsIsInteger && rhsIsInteger) {
+            return lhsInteger == rhsInteger;
+        }
+
+        const double lhsNumber = lhs.getNumber();
+        if (lhsNumber != rhs.getNumber()) {
+            return false;
+        }
+
+        if (lhsIsInteger || rhsIsInteger) {
+            // The integer may have been rounded; 2^63 does not fit in an int64_t
+            return lhsNumber < 9223372036854775808.0 &&
+                static_cast<int64_t>(lhsNumber) == (lhsIsInteger ? lhsInteger : rhsInteger);
+        }
+
+        return true;
+    }
+
     const ValueType m_value;
 };
 
-- 
2.43.0


From 723dfb9bd4d10ecb0c5e293303da32899c4d6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:32 +0000
Subject: [PATCH 37/64] fix: 'nan' and 'inf' are not numbers

---
 include/valijson/internal/double_parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/valijson/internal/double_parser.hpp b/include/valijson/internal/double_parser.hpp
index 5ba9118..9d14837 100644
--- a/include/valijson/internal/double_parser.hpp
+++ b/include/valijson/internal/double_parser.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <locale>
 #include <sstream>
 #include <string>
@@ -74,6 +75,11 @@ inline bool parseDouble(const std::string &input, double &result)
     }
 #endif
 
+    // There are no spellings of infinity and NaN in JSON
+    if (!std::isfinite(value)) {
+        return false;
+    }
+
     result = value;
     return true;
 }
-- 
2.43.0


From b0b82ce6f74692025f09667a67a20bb123e44fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:53 +0000
Subject: [PATCH 38/64] fix: a frozen Poco value does not share arrays and
 objects with its document

---
 .../valijson/adapters/poco_json_adapter.hpp   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index e4db977..55cc273 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -222,7 +222,7 @@ public:
     * @param  source  the PocoJson value to be copied
     */
     explicit PocoJsonFrozenValue(const Poco::Dynamic::Var &source)
-        : m_value(source)
+        : m_value(copy(source))
     { }
 
     virtual FrozenValue * clone() const
@@ -234,6 +234,28 @@ public:
 
 private:
 
+    /// Make a copy that does not share arrays and objects with the source
+    static Poco::Dynamic::Var copy(const Poco::Dynamic::Var &source)
+    {
+        if (source.type() == typeid(Poco::JSON::Array::Ptr)) {
+            Poco::JSON::Array::Ptr array(new Poco::JSON::Array());
+            for (const auto &element : *source.extract<Poco::JSON::Array::Ptr>()) {
+                array->add(copy(element));
+            }
+            return array;
+        }
+
+        if (source.type() == typeid(Poco::JSON::Object::Ptr)) {
+            Poco::JSON::Object::Ptr object(new Poco::JSON::Object());
+            for (const auto &member : *source.extract<Poco::JSON::Object::Ptr>()) {
+                object->set(member.first, copy(member.second));
+            }
+            return object;
+        }
+
+        return source;
+    }
+
     /// Stored PocoJson value
     Poco::Dynamic::Var m_value;
 };
-- 
2.43.0


From 6e6afd96d7ecf49b252e825313e1bde9b2d278fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 39/64] fix: text is an integer only as a whole, whatever the
 locale

---
 .../valijson/adapters/std_string_adapter.hpp  |  8 +------
 include/valijson/internal/basic_adapter.hpp   | 15 ++----------
 include/valijson/internal/double_parser.hpp   | 23 ++++++++++++++++---
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 94dc8aa..d7ad951 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -321,14 +321,8 @@ public:
 
     bool maybeInteger() const override
     {
-        std::istringstream i(m_value);
         int64_t x;
-        char c;
-        if (!(i >> x) || i.get(c)) {
-            return false;
-        }
-
-        return true;
+        return internal::parseInteger(m_value, x);
     }
 
     bool maybeNull() const override
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index 2e76bc6..84a419b 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -411,13 +411,7 @@ public:
         } else if (m_value.isString()) {
             std::string s;
             if (m_value.getString(s)) {
-                std::istringstream i(s);
-                int64_t x;
-                char c;
-                if (!(!(i >> x) || i.get(c))) {
-                    result = x;
-                    return true;
-                }
+                return internal::parseInteger(s, result);
             }
         }
 
@@ -816,13 +810,8 @@ public:
         } else if (maybeString()) {
             std::string s;
             if (m_value.getString(s)) {
-                std::istringstream i(s);
                 int64_t x;
-                char c;
-                if (!(i >> x) || i.get(c)) {
-                    return false;
-                }
-                return true;
+                return internal::parseInteger(s, x);
             }
         }
 
diff --git a/include/valijson/internal/double_parser.hpp b/include/valijson/internal/double_parser.hpp
index 9d14837..bdd02ac 100644
--- a/include/valijson/internal/double_parser.hpp
+++ b/include/valijson/internal/double_parser.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <charconv>
 #include <cmath>
+#include <cstdint>
 #include <locale>
 #include <sstream>
 #include <string>
@@ -37,9 +39,7 @@
 #endif
 
 // include the appropriate header for the available implementation
-#if VALIJSON_HAS_STD_FROM_CHARS
-#  include <charconv>
-#elif defined(VALIJSON_HAS_FAST_FLOAT_FROM_CHARS)
+#if !VALIJSON_HAS_STD_FROM_CHARS && defined(VALIJSON_HAS_FAST_FLOAT_FROM_CHARS)
 #  include <fast_float/fast_float.h>
 #endif
 
@@ -84,5 +84,22 @@ inline bool parseDouble(const std::string &input, double &result)
     return true;
 }
 
+/**
+ * @brief   Convert a string that consists of an integer and nothing else
+ */
+inline bool parseInteger(const std::string &input, int64_t &result)
+{
+    const char *begin = input.data();
+    const char *end = begin + input.length();
+    int64_t value;
+    const auto conversion = std::from_chars(begin, end, value);
+    if (conversion.ec != std::errc() || conversion.ptr != end) {
+        return false;
+    }
+
+    result = value;
+    return true;
+}
+
 } // namespace internal
 } // namespace valijson
-- 
2.43.0


From 36ef80f8cec63de89a84357e3c42af69b6522374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 40/64] fix: a number converts to text that denotes the same
 number, whatever the locale

---
 include/valijson/internal/basic_adapter.hpp |  2 +-
 include/valijson/internal/double_parser.hpp | 22 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index 84a419b..2ee320f 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -491,7 +491,7 @@ public:
         } else if (m_value.isDouble()) {
             double doubleValue;
             if (m_value.getDouble(doubleValue)) {
-                result = std::to_string(doubleValue);
+                result = internal::doubleToString(doubleValue);
                 return true;
             }
         }
diff --git a/include/valijson/internal/double_parser.hpp b/include/valijson/internal/double_parser.hpp
index bdd02ac..1285df2 100644
--- a/include/valijson/internal/double_parser.hpp
+++ b/include/valijson/internal/double_parser.hpp
@@ -101,5 +101,27 @@ inline bool parseInteger(const std::string &input, int64_t &result)
     return true;
 }
 
+/**
+ * @brief   Convert a number to the shortest text that converts back to it
+ */
+inline std::string doubleToString(double value)
+{
+    std::string result;
+    for (int precision = 15; precision <= 17; ++precision) {
+        std::ostringstream stream;
+        stream.imbue(std::locale::classic());
+        stream.precision(precision);
+        stream << value;
+        result = stream.str();
+
+        double parsed;
+        if (parseDouble(result, parsed) && parsed == value) {
+            break;
+        }
+    }
+
+    return result;
+}
+
 } // namespace internal
 } // namespace valijson
-- 
2.43.0


From 8917e446ba4c6f1eaaeecd509d65353bbfcfa348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 41/64] fix: property names convert to booleans and numbers
 under weak types like other strings

---
 .../valijson/adapters/std_string_adapter.hpp  | 45 ++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index d7ad951..9d31fcf 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -117,35 +117,52 @@ public:
 
     bool asBool() const override
     {
-        return true;
+        bool result;
+        if (asBool(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a boolean");
     }
 
     bool asBool(bool &result) const override
     {
-        result = true;
+        if (!maybeBool()) {
+            return false;
+        }
+
+        result = m_value == "true";
         return true;
     }
 
     double asDouble() const override
     {
-        return 0;
+        double result;
+        if (asDouble(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a double");
     }
 
     bool asDouble(double &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseDouble(m_value, result);
     }
 
     int64_t asInteger() const override
     {
-        return 0;
+        int64_t result;
+        if (asInteger(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to an integer");
     }
 
     bool asInteger(int64_t &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseInteger(m_value, result);
     }
 
     StdStringObject asObject() const
@@ -170,11 +187,17 @@ public:
 
     bool equalTo(const Adapter &other, bool strict) const override
     {
-        if (strict && !other.isString()) {
-            return false;
+        if (strict) {
+            return other.isString() && other.asString() == m_value;
+        } else if (maybeNull()) {
+            return other.maybeNull();
+        } else if (maybeBool()) {
+            return other.maybeBool() && other.asBool() == asBool();
+        } else if (maybeDouble()) {
+            return other.maybeDouble() && other.asDouble() == asDouble();
         }
 
-        return m_value == other.asString();
+        return other.maybeString() && other.asString() == m_value;
     }
 
     FrozenValue* freeze() const override
-- 
2.43.0


From 2acf97951c1362a8d9a737058371cd6e4cdab5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:03 +0000
Subject: [PATCH 42/64] fix: the year of a date or date-time has four digits

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 1d8937e..c2f9299 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -409,7 +409,7 @@ public:
         const std::string format = constraint.getFormat();
         if (format == "date") {
             // Matches dates like: 2022-07-18
-            static const internal::regex date_regex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
+            static const internal::regex date_regex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, date_regex)) {
                 const auto year = std::stoi(matches[1].str());
@@ -456,8 +456,8 @@ public:
         } else if (format == "date-time") {
             // Strict mode matches date/times like: 2022-07-18T16:52:45Z, 2022-07-18T16:52:45+02:00
             // Permissive mode also matches date/times like: 2022-07-18T16:52:45
-            static const internal::regex strictRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
-            static const internal::regex permissiveRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex strictRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex permissiveRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto year = std::stoi(matches[1].str());
-- 
2.43.0


From 29e7da91108ce5df5d69a4d5a34e0057c517cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:56 +0000
Subject: [PATCH 43/64] fix: a long fraction of a second does not exhaust the
 stack

---
 include/valijson/validation_visitor.hpp | 32 +++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index c2f9299..7463d9b 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -428,7 +428,8 @@ public:
             static const internal::regex strictRegex("^([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             static const internal::regex permissiveRegex("^([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
-            if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
+            const std::string time = shorten_fraction(s, 8);
+            if (internal::regex_match(time, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto hour = std::stoi(matches[1].str());
                 const auto minute = std::stoi(matches[2].str());
                 const auto second = std::stoi(matches[3].str());
@@ -459,7 +460,8 @@ public:
             static const internal::regex strictRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             static const internal::regex permissiveRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
-            if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
+            const std::string dateTime = shorten_fraction(s, 19);
+            if (internal::regex_match(dateTime, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto year = std::stoi(matches[1].str());
                 const auto month = std::stoi(matches[2].str());
                 const auto day = std::stoi(matches[3].str());
@@ -2043,6 +2045,32 @@ private:
         return constraint.accept(visitor);
     }
 
+    /**
+     * @brief    Helper function to shorten a fraction of a second to one digit.
+     *
+     * A fraction can have any number of digits, and implementations of regex
+     * matching may recurse for every one of them.
+     *
+     * @param    s         String to shorten
+     * @param    position  Index of the full stop that starts the fraction
+     *
+     * @return   Copy of s in which the fraction, if any, has one digit.
+     */
+    static std::string shorten_fraction(std::string s, size_t position)
+    {
+        if (position < s.size() && s[position] == '.') {
+            size_t end = position + 1;
+            while (end < s.size() && s[end] >= '0' && s[end] <= '9') {
+                ++end;
+            }
+            if (end > position + 2) {
+                s.erase(position + 2, end - (position + 2));
+            }
+        }
+
+        return s;
+    }
+
     /**
      * @brief    Helper function to validate if day is valid for the given
      *           year and month, applying the Gregorian leap-year rules.
-- 
2.43.0


From 4ddf370bae162437b48b6e6a4dd9c85bc0d82541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:46 +0000
Subject: [PATCH 44/64] fix: an empty format is an unknown format, not an error

---
 include/valijson/schema_parser.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 521b878..7e5e93f 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1814,12 +1814,9 @@ private:
         const AdapterType &node)
     {
         if (node.isString()) {
-            const std::string value = node.asString();
-            if (!value.empty()) {
-                constraints::FormatConstraint constraint;
-                constraint.setFormat(value);
-                return constraint;
-            }
+            constraints::FormatConstraint constraint;
+            constraint.setFormat(node.asString());
+            return constraint;
         }
 
         throwRuntimeError("Expected a string value for 'format' constraint.");
-- 
2.43.0


From 7099277402b222396f96796dd94c1fb4961c5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 45/64] fix: a leading plus sign does not make a number in any
 of the implementations

---
 include/valijson/internal/double_parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/valijson/internal/double_parser.hpp b/include/valijson/internal/double_parser.hpp
index 1285df2..5df1e89 100644
--- a/include/valijson/internal/double_parser.hpp
+++ b/include/valijson/internal/double_parser.hpp
@@ -65,6 +65,11 @@ inline bool parseDouble(const std::string &input, double &result)
         return false;
     }
 #else
+    // A leading plus sign is understood by streams, but not by from_chars
+    if (!input.empty() && input[0] == '+') {
+        return false;
+    }
+
     std::istringstream stream(input);
     stream.imbue(std::locale::classic());
     stream >> std::noskipws;
-- 
2.43.0


From 1b8cf38e061cafdc30c2c6d96561f415d8ecdfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 46/64] fix: Draft 3 'required' applies whenever a property's
 schema is reused

A property schema that had already been parsed (through a reference to it,
or to one of its ancestors) was taken from the registry without adding the
'required' constraint to the parent.
---
 include/valijson/schema_parser.hpp | 76 ++++++++++++++++--------------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 7e5e93f..ff825a4 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -4,6 +4,7 @@
 #include <functional>
 #include <iostream>
 #include <optional>
+#include <set>
 #include <vector>
 
 #include <valijson/constraints/concrete_constraints.hpp>
@@ -173,6 +174,9 @@ private:
 
             /// Whether the document that is being parsed has been indexed
             bool indexed = false;
+
+            /// Schemas with a 'required' keyword that is true (Draft 3)
+            std::set<const Subschema *> requiredSchemas;
         };
     };
 
@@ -758,6 +762,8 @@ private:
                 populateSchema(rootSchema, rootNode, node, *subschema,
                         currentScope, nodePath, fetchDoc, parentSubschema,
                         ownName, docCache, schemaRegistry);
+            } else {
+                requireOwnProperty<AdapterType>(rootSchema, *subschema, parentSubschema, ownName, docCache);
             }
 
             return subschema;
@@ -792,6 +798,7 @@ private:
         const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, queryKey);
         if (registeredPtr) {
             updateSchemaRegistry(schemaRegistry, newRegistryKeys, registeredPtr);
+            requireOwnProperty<AdapterType>(rootSchema, *registeredPtr, parentSubschema, ownName, docCache);
             return registeredPtr;
         }
 
@@ -938,6 +945,19 @@ private:
         std::string resolvedId;
         resolveSchemaId(node, currentScope, updatedScope, resolvedId);
 
+        // In Draft 3, 'required' applies to the parent schema. Make a note of it
+        // before any other schema can refer to this one
+        if (m_version == kDraft3 && (itr = object.find("required")) != object.end()) {
+            if (!parentSubschema) {
+                throwRuntimeError("'required' constraint not valid here");
+            } else if (!itr->second.maybeBool()) {
+                throwRuntimeError("Expected boolean value for 'required' attribute.");
+            } else if (itr->second.asBool()) {
+                docCache.requiredSchemas.insert(&subschema);
+                requireOwnProperty<AdapterType>(rootSchema, subschema, parentSubschema, ownName, docCache);
+            }
+        }
+
         // Add the type constraint first to be the first one to check because other constraints may rely on it
         if ((itr = object.find("type")) != object.end()) {
             rootSchema.addConstraintToSubschema(
@@ -1233,22 +1253,8 @@ private:
             }
         }
 
-        if ((itr = object.find("required")) != object.end()) {
-            if (m_version == kDraft3) {
-                // A schema for properties that match a pattern has no name of
-                // its own, so 'required' has no effect there
-                if (parentSubschema && ownName) {
-                    std::optional<constraints::RequiredConstraint> constraint =
-                            makeRequiredConstraintForSelf(itr->second, *ownName);
-                    if (constraint) {
-                        rootSchema.addConstraintToSubschema(*constraint, parentSubschema);
-                    }
-                } else if (!parentSubschema) {
-                    throwRuntimeError("'required' constraint not valid here");
-                }
-            } else {
-                rootSchema.addConstraintToSubschema(makeRequiredConstraint(itr->second), &subschema);
-            }
+        if (m_version != kDraft3 && (itr = object.find("required")) != object.end()) {
+            rootSchema.addConstraintToSubschema(makeRequiredConstraint(itr->second), &subschema);
         }
 
         if ((itr = object.find("title")) != object.end()) {
@@ -2515,33 +2521,31 @@ private:
     }
 
     /**
-     * @brief   Make a new RequiredConstraint.
-     *
-     * This function is used to create new RequiredContraint objects for
-     * Draft 3 schemas.
+     * @brief   Require the property that a schema has been found for.
      *
-     * @param   node  Node containing a boolean value.
-     * @param   name  Name of the required attribute.
+     * This function is used to support the 'required' keyword in Draft 3
+     * schemas. A schema for properties that match a pattern has no name of its
+     * own, so 'required' has no effect there.
      *
-     * @return  pointer to a new RequiredConstraint object that belongs to the
-     *          caller
+     * @param   rootSchema       Schema instance that owns all subschemas
+     * @param   subschema        Schema that was found for the property
+     * @param   parentSubschema  Optional pointer to the parent schema
+     * @param   ownName          Optional pointer to the name of the property
+     * @param   docCache         Cache that knows which schemas are required
      */
     template<typename AdapterType>
-    std::optional<constraints::RequiredConstraint>
-            makeRequiredConstraintForSelf(const AdapterType &node,
-                    const std::string &name)
+    static void requireOwnProperty(
+        Schema &rootSchema,
+        const Subschema &subschema,
+        const Subschema *parentSubschema,
+        const std::string *ownName,
+        const typename DocumentCache<AdapterType>::Type &docCache)
     {
-        if (!node.maybeBool()) {
-            throwRuntimeError("Expected boolean value for 'required' attribute.");
-        }
-
-        if (node.asBool()) {
+        if (parentSubschema && ownName && docCache.requiredSchemas.count(&subschema)) {
             constraints::RequiredConstraint constraint;
-            constraint.addRequiredProperty(name);
-            return constraint;
+            constraint.addRequiredProperty(*ownName);
+            rootSchema.addConstraintToSubschema(constraint, parentSubschema);
         }
-
-        return std::optional<constraints::RequiredConstraint>();
     }
 
     /**
-- 
2.43.0


From 3ac5b4d6e94cf5a2b9a3a4e977be14de3f49956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 47/64] fix: assigning an EnumConstraint clones its values

The implicit copy assignment shared the values between both constraints,
which were then deleted twice.
---
 .../valijson/constraints/concrete_constraints.hpp  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ebea406..c8fac3e 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -392,6 +392,20 @@ public:
         }
     }
 
+    EnumConstraint & operator=(const EnumConstraint &other)
+    {
+        // Each constraint owns its values, so clone before taking over
+        EnumConstraint copy(other);
+        m_enumValues.reserve(copy.m_enumValues.size());
+        for (const EnumValue *value : m_enumValues) {
+            delete value;
+        }
+        m_enumValues.assign(copy.m_enumValues.begin(), copy.m_enumValues.end());
+        copy.m_enumValues.clear();
+
+        return *this;
+    }
+
     ~EnumConstraint() override
     {
         for (const EnumValue *value : m_enumValues) {
-- 
2.43.0


From 1ef5ff952a1c858dbb67c53f692ce545272d7ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 48/64] fix: copying a ConstConstraint that has no value

The value that has not been set yet was dereferenced.
---
 include/valijson/constraints/concrete_constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index c8fac3e..8dc0154 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -192,7 +192,7 @@ public:
 
     ConstConstraint(const ConstConstraint &other)
       : BasicConstraint(other),
-        m_value(other.m_value->clone()) { }
+        m_value(other.m_value ? other.m_value->clone() : nullptr) { }
 
     adapters::FrozenValue * getValue() const
     {
-- 
2.43.0


From aaa4e3d297d662ea73f78630d47f00fa417d61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 49/64] fix: a custom allocation function that returns null is
 a failed allocation

---
 include/valijson/internal/custom_allocator.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/custom_allocator.hpp b/include/valijson/internal/custom_allocator.hpp
index fb34b9f..f2df785 100644
--- a/include/valijson/internal/custom_allocator.hpp
+++ b/include/valijson/internal/custom_allocator.hpp
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <limits>
+#include <new>
+
+#include <valijson/exceptions.hpp>
 
 namespace valijson {
 namespace internal {
@@ -67,7 +70,16 @@ public:
 
     pointer allocate(size_type cnt, const void * = nullptr)
     {
-        return reinterpret_cast<pointer>(m_allocFn(cnt * sizeof(T)));
+        void * const ptr = m_allocFn(cnt * sizeof(T));
+        if (!ptr) {
+#if VALIJSON_USE_EXCEPTIONS
+            throw std::bad_alloc();
+#else
+            throwRuntimeError("Memory allocation failed");
+#endif
+        }
+
+        return reinterpret_cast<pointer>(ptr);
     }
 
     void deallocate(pointer p, size_type)
-- 
2.43.0


From 40097af51b52f9627d188a67889213ab987629d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 50/64] fix: EnumConstraint::addValue does not leak when it
 cannot store a value

---
 include/valijson/constraints/concrete_constraints.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index 8dc0154..84a6663 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -16,6 +16,7 @@
 
 #include <limits>
 #include <map>
+#include <memory>
 #include <set>
 #include <string>
 #include <vector>
@@ -416,13 +417,17 @@ public:
     void addValue(const adapters::Adapter &value)
     {
         // TODO: Freeze value using custom alloc/free functions
-        m_enumValues.push_back(value.freeze());
+        std::unique_ptr<EnumValue> frozen(value.freeze());
+        m_enumValues.push_back(frozen.get());
+        frozen.release();
     }
 
     void addValue(const adapters::FrozenValue &value)
     {
         // TODO: Clone using custom alloc/free functions
-        m_enumValues.push_back(value.clone());
+        std::unique_ptr<EnumValue> cloned(value.clone());
+        m_enumValues.push_back(cloned.get());
+        cloned.release();
     }
 
     template<typename FunctorType>
-- 
2.43.0


From 7d9c03042a46a9962385961aa8af66ade66bc5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 51/64] fix: type 'any' is rejected in draft 7 as in draft 4

---
 include/valijson/schema_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ff825a4..b9f1049 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2612,8 +2612,8 @@ private:
         // so 'isObject' is consulted before 'maybeString' here, and below
         if (node.maybeString() && !node.isObject()) {
             const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(node.getString());
-            if (type == TypeConstraint::kAny && m_version == kDraft4) {
-                throwRuntimeError("'any' type is not supported in version 4 schemas.");
+            if (type == TypeConstraint::kAny && m_version != kDraft3) {
+                throwRuntimeError("'any' type is only supported in version 3 schemas.");
             }
 
             constraint.addNamedType(type);
@@ -2623,8 +2623,8 @@ private:
             for (const AdapterType v : node.getArray()) {
                 if (v.maybeString() && !v.isObject()) {
                     const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
-                    if (type == TypeConstraint::kAny && m_version == kDraft4) {
-                        throwRuntimeError("'any' type is not supported in version 4 schemas.");
+                    if (type == TypeConstraint::kAny && m_version != kDraft3) {
+                        throwRuntimeError("'any' type is only supported in version 3 schemas.");
                     }
 
                     constraint.addNamedType(type);
-- 
2.43.0


From bba035246da569481f8a7e402859295843bf27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 52/64] fix: a schema that refers to itself without making
 progress is reported instead of exhausting the stack

---
 include/valijson/validation_visitor.hpp | 66 ++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 8 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7463d9b..fc87523 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -12,6 +12,7 @@
 #include <valijson/adapters/std_string_adapter.hpp>
 #include <valijson/constraints/concrete_constraints.hpp>
 #include <valijson/constraints/constraint_visitor.hpp>
+#include <valijson/exceptions.hpp>
 #include <valijson/validation_results.hpp>
 
 #include <valijson/utils/utf8_utils.hpp>
@@ -52,6 +53,35 @@ inline bool isDoubleAnInteger(const AdapterType &target)
 template<typename AdapterType, typename RegexEngine>
 class ValidationVisitor: public constraints::ConstraintVisitor
 {
+    /**
+     * @brief   A schema that is being applied to the target, registered with
+     *          a visitor for as long as it is
+     */
+    struct ActiveSchema
+    {
+        ActiveSchema(ValidationVisitor &visitor, const Subschema &subschema)
+          : m_visitor(visitor),
+            m_subschema(&subschema),
+            m_hasResults(visitor.m_results != nullptr),
+            m_outer(visitor.m_activeSchema)
+        {
+            m_visitor.m_activeSchema = this;
+        }
+
+        ~ActiveSchema()
+        {
+            m_visitor.m_activeSchema = m_outer;
+        }
+
+        ActiveSchema(const ActiveSchema &) = delete;
+        ActiveSchema & operator=(const ActiveSchema &) = delete;
+
+        ValidationVisitor &m_visitor;
+        const Subschema * const m_subschema;
+        const bool m_hasResults;
+        const ActiveSchema * const m_outer;
+    };
+
 public:
 
     /**
@@ -67,19 +97,23 @@ public:
      *                      stop immediately.
      * @param  regexesCache Cache of already created RegexEngine objects for pattern
      *                      constraints.
+     * @param  activeSchema Innermost of the schemas that are already being
+     *                      applied to the same target, if any.
      */
     ValidationVisitor(const AdapterType &target,
                       ValidationResults::Path path,
                       const bool strictTypes,
                       const bool strictDateTime,
                       ValidationResults *results,
-                      std::unordered_map<std::string, RegexEngine>& regexesCache)
+                      std::unordered_map<std::string, RegexEngine>& regexesCache,
+                      const ActiveSchema *activeSchema = nullptr)
       : m_target(target),
         m_path(std::move(path)),
         m_results(results),
         m_strictTypes(strictTypes),
         m_strictDateTime(strictDateTime),
-        m_regexesCache(regexesCache) { }
+        m_regexesCache(regexesCache),
+        m_activeSchema(activeSchema) { }
 
     /**
      * @brief  Validate the target against a schema.
@@ -105,6 +139,16 @@ public:
             return false;
         }
 
+        // A schema that is applied to the same value while it is already being
+        // applied to it would be applied forever
+        for (const ActiveSchema *active = m_activeSchema; active; active = active->m_outer) {
+            if (active->m_subschema == &subschema && active->m_hasResults == (m_results != nullptr)) {
+                throwRuntimeError("Schema refers to itself without making progress.");
+            }
+        }
+
+        const ActiveSchema activeSchema(*this, subschema);
+
         // Wrap the validationCallback() function below so that it will be
         // passed a reference to a constraint (_1), and a reference to the
         // visitor (*this).
@@ -182,7 +226,7 @@ public:
         ValidationResults *childResults = (m_results) ? &newResults : nullptr;
 
         ValidationVisitor<AdapterType, RegexEngine> v(
-            m_target, m_path, m_strictTypes, m_strictDateTime, childResults, m_regexesCache);
+            m_target, m_path, m_strictTypes, m_strictDateTime, childResults, m_regexesCache, m_activeSchema);
 
         constraint.applyToSubschemas(
                 ValidateSubschemas(m_target, m_path, false, true, v, childResults, &numValidated, nullptr));
@@ -215,8 +259,10 @@ public:
         ValidationResults* conditionalResults = (m_results) ? &newResults : nullptr;
 
         // Create a validator to evaluate the conditional
-        ValidationVisitor ifValidator(m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
-        ValidationVisitor thenElseValidator(m_target, m_path, m_strictTypes, m_strictDateTime, conditionalResults, m_regexesCache);
+        ValidationVisitor ifValidator(
+            m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache, m_activeSchema);
+        ValidationVisitor thenElseValidator(
+            m_target, m_path, m_strictTypes, m_strictDateTime, conditionalResults, m_regexesCache, m_activeSchema);
 
         bool validated = false;
         if (ifValidator.validateSchema(*constraint.getIfSubschema())) {
@@ -1025,7 +1071,8 @@ public:
             return false;
         }
 
-        ValidationVisitor<AdapterType, RegexEngine> v(m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
+        ValidationVisitor<AdapterType, RegexEngine> v(
+            m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache, m_activeSchema);
         if (v.validateSchema(*subschema)) {
             if (m_results) {
                 m_results->pushError(m_path,
@@ -1052,7 +1099,7 @@ public:
         ValidationResults newResults;
         ValidationResults *childResults = (m_results) ? &newResults : nullptr;
         ValidationVisitor<AdapterType, RegexEngine> v(
-            m_target, m_path, m_strictTypes, m_strictDateTime, childResults, m_regexesCache);
+            m_target, m_path, m_strictTypes, m_strictDateTime, childResults, m_regexesCache, m_activeSchema);
 
         constraint.applyToSubschemas(
                 ValidateSubschemas(m_target, m_path, true, true, v, childResults, &numValidated, nullptr));
@@ -1365,7 +1412,7 @@ public:
             // Like anyOf, errors from individual schemas are not reported
             unsigned int numValidated = 0;
             ValidationVisitor<AdapterType, RegexEngine> v(
-                m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
+                m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache, m_activeSchema);
             constraint.applyToSchemaTypes(
                     ValidateSubschemas(m_target, m_path, false, true, v, nullptr, &numValidated, nullptr));
             if (numValidated > 0) {
@@ -2156,6 +2203,9 @@ private:
 
     /// Cached regex objects for pattern constraint
     std::unordered_map<std::string, RegexEngine>& m_regexesCache;
+
+    /// Innermost of the schemas that are being applied to the target
+    const ActiveSchema *m_activeSchema;
 };
 
 }  // namespace valijson
-- 
2.43.0


From adb25f9b2f07a45e9d06051459632a805838a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 53/64] fix: an identifier outside any schema does not grow
 with every reference below it

---
 include/valijson/schema_parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index b9f1049..046c19d 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -566,7 +566,9 @@ private:
 
         if (itr == docCache.locations.end()) {
             if (!uri || (currentScope && *uri == *currentScope)) {
-                findScopeForPath(rootNode, currentScope, referencedPath, "", referencedScope);
+                // An identifier that is not in the index says nothing about the
+                // document, so the path must not be resolved relative to it
+                findScopeForPath(rootNode, std::optional<std::string>(), referencedPath, "", referencedScope);
                 return rootNode;
             }
 
-- 
2.43.0


From 246019d41a875d98a6c2ae4846907c35e17d537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 54/64] fix: copies of a SchemaParser share its constraint
 builders instead of deleting them twice

---
 include/valijson/schema_parser.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 046c19d..482be19 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <functional>
 #include <iostream>
+#include <memory>
 #include <optional>
 #include <set>
 #include <vector>
@@ -48,14 +49,10 @@ public:
       : m_version(version) { }
 
     /**
-     * @brief  Release memory associated with custom ConstraintBuilders
+     * @brief  Release memory associated with custom ConstraintBuilders, unless
+     *         they are shared with a copy of this SchemaParser
      */
-    virtual ~SchemaParser()
-    {
-        for (const auto& entry : constraintBuilders) {
-            delete entry.second;
-        }
-    }
+    virtual ~SchemaParser() = default;
 
     /**
      * @brief  Struct to contain templated function type for fetching documents
@@ -92,7 +89,10 @@ public:
      */
     void addConstraintBuilder(const std::string &key, const ConstraintBuilder *builder)
     {
-        constraintBuilders.push_back(std::make_pair(key, builder));
+        // Ownership is only taken once nothing else can throw an exception
+        const auto owner = std::make_shared<std::unique_ptr<const ConstraintBuilder>>();
+        constraintBuilders.push_back(std::make_pair(key, owner));
+        owner->reset(builder);
     }
 
     /**
@@ -139,7 +139,8 @@ public:
 
 private:
 
-    typedef std::vector<std::pair<std::string, const ConstraintBuilder *>>
+    // The builders are shared by copies of this SchemaParser
+    typedef std::vector<std::pair<std::string, std::shared_ptr<std::unique_ptr<const ConstraintBuilder>>>>
         ConstraintBuilders;
 
     ConstraintBuilders constraintBuilders;
@@ -1280,7 +1281,7 @@ private:
 #if VALIJSON_USE_EXCEPTIONS
                 try {
 #endif
-                    constraint = constraintBuilder.second->make(itr->second);
+                    constraint = (*constraintBuilder.second)->make(itr->second);
                     rootSchema.addConstraintToSubschema(*constraint, &subschema);
                     delete constraint;
 #if VALIJSON_USE_EXCEPTIONS
-- 
2.43.0


From ada31711ad57ba0c074f008ce04ce591ce754d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 55/64] fix: additional properties are not validated before all
 properties have been matched by patternProperties

---
 include/valijson/validation_visitor.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index fc87523..917726c 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1224,6 +1224,11 @@ public:
                         m_results, &propertiesMatched,
                         &validated, m_regexesCache));
 
+        // Exit early again, because not all properties may have been matched
+        if (!validated && !m_results) {
+            return false;
+        }
+
         // Validate against additionalProperties subschema for any properties
         // that have not yet been matched
         const Subschema *additionalPropertiesSubschema =
-- 
2.43.0


From c78b803a19f5715c677fc6ff545da726616cf4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 56/64] fix: bundles contain the conversion of strings to
 numbers that all of them need

---
 bundle.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bundle.sh b/bundle.sh
index f2d6503..1ffb1bb 100755
--- a/bundle.sh
+++ b/bundle.sh
@@ -66,6 +66,7 @@ fi
 common_headers=(
   include/valijson/exceptions.hpp
   include/valijson/internal/adapter.hpp
+  include/valijson/internal/double_parser.hpp
   include/valijson/internal/basic_adapter.hpp
   include/valijson/internal/custom_allocator.hpp
   include/valijson/internal/debug.hpp
-- 
2.43.0


From 4de32af468facef5262a6005bdadb73b3b397875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 57/64] fix: RapidJSON adapter and property tree utilities can
 be used without exceptions, and in several translation units

---
 include/valijson/adapters/rapidjson_adapter.hpp | 2 +-
 include/valijson/utils/property_tree_utils.hpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 587bc5d..4ab35bc 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -45,7 +45,7 @@
 #include <iterator>
 #include <type_traits>
 
-#ifdef VALIJSON_USE_EXCEPTIONS
+#if VALIJSON_USE_EXCEPTIONS
     #ifdef RAPIDJSON_ASSERT
         #warning "RAPIDJSON_ASSERT already defined."
         #warning "Please include valijson/adapters/rapidjson_adapter.hpp before any RapidJSON headers."
diff --git a/include/valijson/utils/property_tree_utils.hpp b/include/valijson/utils/property_tree_utils.hpp
index 7438980..9f6eefb 100644
--- a/include/valijson/utils/property_tree_utils.hpp
+++ b/include/valijson/utils/property_tree_utils.hpp
@@ -34,14 +34,14 @@ namespace boost {
 #if (BOOST_VERSION >= 107100)
 BOOST_NORETURN
 #endif
-void throw_exception(std::exception const & e ) {
+inline void throw_exception(std::exception const & e ) {
  valijson::throwRuntimeError(e.what());
 }
 
 // Source location override was added in 1.73.
 #if (BOOST_VERSION >= 107300)
 BOOST_NORETURN
-void throw_exception(std::exception const & e, boost::source_location const & loc ) {
+inline void throw_exception(std::exception const & e, boost::source_location const & loc ) {
   valijson::throwRuntimeError(e.what());
 }
 #endif
-- 
2.43.0


From 3a458d9fdfbde011e24c9fb1ddf23101ccae1832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 58/64] fix: with Boost.Regex, ^, $ and . treat line breaks as
 in ECMAScript

---
 include/valijson/internal/regex.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/regex.hpp b/include/valijson/internal/regex.hpp
index 4e5011d..8257706 100644
--- a/include/valijson/internal/regex.hpp
+++ b/include/valijson/internal/regex.hpp
@@ -1,10 +1,25 @@
 #if defined(VALIJSON_USE_BOOST_REGEX) && VALIJSON_USE_BOOST_REGEX
 
+#include <string>
+
 #include <boost/regex.hpp>
 
 namespace valijson {
 namespace internal {
-using boost::regex;
+
+/**
+ * @brief  Regular expression with the meaning that it has in ECMAScript
+ *
+ * By default, Boost.Regex would let '^' and '$' match next to line breaks in
+ * the middle of a string, and '.' match a line break.
+ */
+class regex: public boost::regex
+{
+public:
+    explicit regex(const std::string &pattern)
+      : boost::regex(pattern, boost::regex::ECMAScript | boost::regex::no_mod_m | boost::regex::no_mod_s) { }
+};
+
 using boost::regex_match;
 using boost::regex_search;
 using boost::smatch;
-- 
2.43.0


From eb9867c8c79aaf06c5992be3b17c0788b393bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 59/64] fix: loadDocument for RapidJSON reports errors at the
 beginning of a file instead of throwing

---
 include/valijson/utils/rapidjson_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 2f90ba9..5da7b79 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 
@@ -28,7 +29,7 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
         if (document.HasParseError()) {
             std::cerr << "RapidJson failed to parse the document:" << std::endl;
             std::cerr << "Parse error: " << document.GetParseError() << std::endl;
-            std::cerr << "Near: " << file.substr((std::max)(size_t(0), document.GetErrorOffset() - 20), 40) << std::endl;
+            std::cerr << "Near: " << file.substr((std::max)(size_t(20), document.GetErrorOffset()) - 20, 40) << std::endl;
             return false;
         }
 #if VALIJSON_USE_EXCEPTIONS
-- 
2.43.0


From d486b4ad3293e12f5b7941afe8bb9cbe585d306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 60/64] fix: loadDocument for nlohmann::json reports parse
 errors instead of throwing them

---
 include/valijson/utils/nlohmann_json_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/nlohmann_json_utils.hpp b/include/valijson/utils/nlohmann_json_utils.hpp
index 77e5771..ea06041 100644
--- a/include/valijson/utils/nlohmann_json_utils.hpp
+++ b/include/valijson/utils/nlohmann_json_utils.hpp
@@ -23,7 +23,7 @@ inline bool loadDocument(const std::string &path, nlohmann::json &document)
 #if VALIJSON_USE_EXCEPTIONS
     try {
         document = nlohmann::json::parse(file);
-    } catch (std::invalid_argument const& exception) {
+    } catch (nlohmann::json::exception const& exception) {
         std::cerr << "nlohmann::json failed to parse the document\n"
             << "Parse error:" << exception.what() << "\n";
         return false;
-- 
2.43.0


From 55d7d65422a451f832ceb8b39677fae2b632c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 61/64] fix: loadDocument for PicoJSON reports numbers out of
 range and content after the document

---
 include/valijson/utils/picojson_utils.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/valijson/utils/picojson_utils.hpp b/include/valijson/utils/picojson_utils.hpp
index 36420d2..9ccfaf3 100644
--- a/include/valijson/utils/picojson_utils.hpp
+++ b/include/valijson/utils/picojson_utils.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <exception>
 #include <iostream>
+#include <string>
 
 #ifdef _MSC_VER
 #pragma warning(disable: 4706)
@@ -25,7 +27,19 @@ inline bool loadDocument(const std::string &path, picojson::value &document)
     }
 
     // Parse schema
-    std::string err = picojson::parse(document, file);
+    std::string err;
+#if VALIJSON_USE_EXCEPTIONS
+    try {
+#endif
+        const auto end = picojson::parse(document, file.begin(), file.end(), &err);
+        if (err.empty() && file.find_first_not_of(" \t\r\n", static_cast<size_t>(end - file.begin())) != std::string::npos) {
+            err = "unexpected content after the end of the document";
+        }
+#if VALIJSON_USE_EXCEPTIONS
+    } catch (const std::exception &) {
+        err = "value out of range";
+    }
+#endif
     if (!err.empty()) {
         std::cerr << "PicoJson failed to parse the document:" << std::endl
                   << "Parse error: " << err << std::endl;
-- 
2.43.0


From 322e8cb98096a97f0efc272d7d9e5ee8d5971a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 62/64] fix: loadDocument for JsonCpp reports deep nesting and
 content after the document

---
 include/valijson/utils/jsoncpp_utils.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/valijson/utils/jsoncpp_utils.hpp b/include/valijson/utils/jsoncpp_utils.hpp
index 49a43b6..7bb9c9f 100644
--- a/include/valijson/utils/jsoncpp_utils.hpp
+++ b/include/valijson/utils/jsoncpp_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <iostream>
 #include <string>
 #include <memory>
@@ -22,12 +23,22 @@ inline bool loadDocument(const std::string &path, Json::Value &document)
 
     const auto fileLength = static_cast<int>(file.length());
     Json::CharReaderBuilder builder;
+    builder["failIfExtra"] = true;
     const std::unique_ptr<Json::CharReader> reader(builder.newCharReader());
     std::string err;
-    if (!reader->parse(file.c_str(), file.c_str() + fileLength, &document, &err)) {
-        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << err;
+#if VALIJSON_USE_EXCEPTIONS
+    try {
+#endif
+        if (!reader->parse(file.c_str(), file.c_str() + fileLength, &document, &err)) {
+            std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << err;
+            return false;
+        }
+#if VALIJSON_USE_EXCEPTIONS
+    } catch (const std::exception &e) {
+        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << e.what() << std::endl;
         return false;
     }
+#endif
     return true;
 }
 
-- 
2.43.0


From 88581844afb3567763ff184c4bb27151277d2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 63/64] fix: loadDocument for yaml-cpp reports failures to read
 a file instead of throwing

---
 include/valijson/utils/yaml_cpp_utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/valijson/utils/yaml_cpp_utils.hpp b/include/valijson/utils/yaml_cpp_utils.hpp
index 6c93800..58cc98c 100644
--- a/include/valijson/utils/yaml_cpp_utils.hpp
+++ b/include/valijson/utils/yaml_cpp_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <iostream>
 #include <memory>
 #include <string>
@@ -19,8 +20,8 @@ inline bool loadDocument(const std::string &path, YAML::Node &document)
     } catch (const YAML::BadFile &ex) {
         std::cerr << "Failed to load YAML from file '" << path << "'." << std::endl;
         return false;
-    } catch (const YAML::ParserException &ex) {
-        std::cout << "yaml-cpp failed to parse the document '" << ex.what() << std::endl;
+    } catch (const std::exception &ex) {
+        std::cerr << "yaml-cpp failed to parse the document '" << ex.what() << std::endl;
         return false;
     }
 }
-- 
2.43.0


From a68d4b607b8af190bd0d040a1cb51579fcbb09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 64/64] fix: loadDocument for Qt JSON prints the parse error

---
 include/valijson/utils/qtjson_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/qtjson_utils.hpp b/include/valijson/utils/qtjson_utils.hpp
index c05b0f0..bd0f19a 100644
--- a/include/valijson/utils/qtjson_utils.hpp
+++ b/include/valijson/utils/qtjson_utils.hpp
@@ -24,7 +24,7 @@ inline bool loadDocument(const std::string &path, QJsonValue &root)
 
     // Parse schema
     QJsonParseError parseError;
-    QJsonDocument doc = QJsonDocument::fromJson(data);
+    QJsonDocument doc = QJsonDocument::fromJson(data, &parseError);
     if (doc.isNull()) {
         std::cerr << "qt failed to parse the document:" << std::endl
                   << parseError.errorString().toStdString() << std::endl;
-- 
2.43.0

