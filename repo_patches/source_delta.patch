From 0be2d1257565b7efcd070f1f0cdce6b26ddda2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 01/28] fix: hold the registry lock while the registry is used

---
 src/argument.cpp |  8 +++++++-
 src/registry.cpp | 15 +++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index e279d7b..ac3c536 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -7,6 +7,7 @@
 
 #include "reflect.h"
 
+#include <atomic>
 #include <sstream>
 
 namespace reflect {
@@ -92,7 +93,12 @@ Match
 Argument::
 isConvertibleTo(const Argument& target) const
 {
-    static const Type* valueType = reflect::type<Value>();
+    // Looking up a type takes the registry lock which must not happen while the
+    // guard of a static local is held.
+    static std::atomic<const Type*> cachedType { nullptr };
+
+    const Type* valueType = cachedType;
+    if (!valueType) cachedType = valueType = reflect::type<Value>();
 
     if (*this == target) return Match::Exact;
 
diff --git a/src/registry.cpp b/src/registry.cpp
index 461b467..00a6276 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -19,19 +19,18 @@ namespace {
 
 struct RegistryState
 {
-    std::mutex lock;
+    // Loaders look up the types they depend on which re-enters the registry.
+    std::recursive_mutex lock;
     std::unordered_map<std::string, const Type*> types;
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
     Scope scopes;
 };
 
-RegistryState* registry_ = nullptr;
-
 RegistryState& getRegistry()
 {
-    if (!registry_) registry_ = new RegistryState();
-    return *registry_;
+    static RegistryState* registry = new RegistryState();
+    return *registry;
 }
 
 } // namespace anonymous
@@ -53,7 +52,7 @@ Registry::
 get(const std::string& id)
 {
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     const std::string* pId = &id;
 
@@ -109,7 +108,7 @@ add(const std::string& id, std::function<void(Type*)> loader)
         reflectError("can't add loader for<%s>", id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
@@ -124,7 +123,7 @@ alias(const std::string& id, const std::string& alias)
         reflectError("<%s> can't be aliased to <%s>", alias, id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
     if (!ret.second) {
-- 
2.43.0


From 7a75afbe0c65f73fd4b7da74509d0b814de6bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 02/28] fix: register template types before publishing that
 they are loaded

---
 src/dsl/template.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsl/template.h b/src/dsl/template.h
index ab1184c..b069644 100644
--- a/src/dsl/template.h
+++ b/src/dsl/template.h
@@ -8,6 +8,8 @@
 #include "reflect.h"
 #pragma once
 
+#include <atomic>
+
 namespace reflect {
 
 /******************************************************************************/
@@ -17,10 +19,10 @@ namespace reflect {
 #define reflectTemplateLoader()                 \
     static void loader()                        \
     {                                           \
-        static bool loaded = false;             \
+        static std::atomic<bool> loaded(false); \
         if (loaded) return;                     \
-        loaded = true;                          \
         Registry::add<T_>();                    \
+        loaded = true;                          \
     }
 
 
-- 
2.43.0


From 5e6ff9fce70724ca9bc1d693e8028f2dada046e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 03/28] fix: keep long error messages within the formatting
 buffer

---
 src/error.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7edf5b..94b31a1 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -7,6 +7,7 @@
 
 #include "reflect.h"
 
+#include <algorithm>
 #include <cstdio>
 #include <cstdarg>
 
@@ -22,9 +23,13 @@ std::string verrorFormat(const char* fmt, ...)
     va_start(args, fmt);
 
     char buf[1024];
-    int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, args);
+    int n = std::vsnprintf(buf, sizeof(buf), fmt, args);
 
-    return std::string(buf, n);
+    va_end(args);
+
+    // n is the length of the full message which may not have fit in the buffer.
+    if (n < 0) return fmt;
+    return std::string(buf, std::min<size_t>(n, sizeof(buf) - 1));
 }
 
 
-- 
2.43.0


From 78c86581646c9ab93dae23fcc38537e6ccc2de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 04/28] fix: free the callable replaced by a function move
 assignment

---
 src/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index 0c2a826..855572d 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -32,6 +32,8 @@ operator=(Function&& other) noexcept
 {
     if (this == &other) return *this;
 
+    if (fn) freeValueFunction(fn);
+
     fn = other.fn;
     other.fn = nullptr;
 
-- 
2.43.0


From 6ab130f3b99fef138d126b370692493b6a09f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 05/28] fix: initialize the reference type of default arguments

---
 src/argument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index ac3c536..0a00784 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -42,7 +42,9 @@ std::ostream& operator<<(std::ostream& stream, Match match)
 /******************************************************************************/
 
 Argument::
-Argument() : type_(reflect::type<void>()), isConst_(false) {}
+Argument() :
+    type_(reflect::type<void>()), refType_(RefType::Copy), isConst_(false)
+{}
 
 Argument::
 Argument(const Type* type, RefType refType, bool isConst) :
-- 
2.43.0


From 8f28a1c0a7774432475792974e692ec55c9f2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 06/28] fix: stop decoding UTF-8 sequences with invalid headers

---
 src/utils/json/format.cpp | 22 ++++++++++++++++++----
 src/utils/json/token.cpp  |  5 ++++-
 src/utils/json/utils.h    |  6 +++++-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9c8f743..ed68bad 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -56,8 +56,15 @@ void formatFloat(Writer& writer, double value)
 size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
+
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return i;
+    }
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
@@ -76,8 +83,15 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 size_t readUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
-    if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
-    if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (bytes > 4 || bytes < 2) {
+        writer.error("invalid UTF-8 header");
+        return i;
+    }
+
+    if (i + bytes > value.size()) {
+        writer.error("invalid UTF-8 encoding");
+        return i;
+    }
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 64dccad..b410192 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -219,7 +219,10 @@ void validateUnicode(Reader& reader, char c)
     reader.save(c);
 
     size_t bytes = clz(~c);
-    if (bytes > 4 || bytes < 2) reader.error("invalid UTF-8 header: %x", c);
+    if (bytes > 4 || bytes < 2) {
+        reader.error("invalid UTF-8 header: %x", c);
+        return;
+    }
 
     uint32_t mask = (1 << (7 - bytes)) - 1;
     uint32_t code = uint32_t(c) & mask;
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 6c46988..9ec621f 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -12,7 +12,11 @@ namespace json {
 /* BIT OPS                                                                    */
 /******************************************************************************/
 
-size_t clz(char value) { return __builtin_clz(uint32_t(value) << 24); }
+size_t clz(char value)
+{
+    // __builtin_clz is undefined for zero.
+    return value ? __builtin_clz(uint32_t(value) << 24) : 8;
+}
 
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 913c50f5fce4726aed6cdab9b01a7f466749159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 07/28] fix: detect formatted json values which overflow the
 buffer

---
 src/utils/json/format.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index ed68bad..a699e81 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -32,8 +32,8 @@ void format(Writer& writer, const char* format, T value)
 {
     auto& buffer = writer.buffer();
 
-    size_t n = snprintf(buffer.data(), buffer.size(), format, value);
-    if (n == buffer.size()) {
+    int n = snprintf(buffer.data(), buffer.size(), format, value);
+    if (n < 0 || size_t(n) >= buffer.size()) {
         writer.error("buffer too small to format value");
         return;
     }
-- 
2.43.0


From 14493b3ac91223225cecd6a6fa4fb77fbf1f1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 08/28] fix: indent deeply nested json without reading past the
 padding

---
 src/utils/json/writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 9cd1c5e..9b5264b 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -26,7 +26,10 @@ newline()
     if (!pretty()) return;
 
     push("\n");
-    push(spaces.c_str(), indent_ * 4);
+
+    size_t padding = indent_ * 4;
+    for (; padding > spaces.size(); padding -= spaces.size()) push(spaces);
+    push(spaces.c_str(), padding);
 }
 
 } // namespace json
-- 
2.43.0


From d478737f3af24b80c11fbc94b8e7f608863d9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 09/28] fix: keep the first error of a json writer

---
 src/utils/json/writer.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/json/writer.tcc b/src/utils/json/writer.tcc
index 8df45ab..d28aa08 100644
--- a/src/utils/json/writer.tcc
+++ b/src/utils/json/writer.tcc
@@ -18,6 +18,8 @@ void
 Writer::
 error(const char* fmt, Args&&... args)
 {
+    if (error_) return;
+
     error_ = Error(reflect::errorFormat(fmt, std::forward<Args>(args)...));
 }
 
-- 
2.43.0


From b2a9e0a7c6a20a04f87b9ebeb1541769c6c7b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 10/28] fix: print json to a stream instead of parsing from it

---
 src/utils/json/printer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index acf7704..7616028 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -114,7 +114,7 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return parse(stream, value);
+    return print(writer, value);
 }
 
 template<typename T>
-- 
2.43.0


From dba2b8bbef7fca48446e2f310fa32a345861b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 11/28] fix: reject duplicate json keys when printing objects

---
 src/utils/json/printer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index e8fa643..ab28d59 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -250,8 +250,8 @@ struct ObjectPrinter : public Printer
                 isSkipEmpty = traits.skipEmpty;
             }
 
-            if (fields.count(key))
-                reflectError("duplicate json key <%s> in <%s>", key, type->id());
+            if (keys.count(alias))
+                reflectError("duplicate json key <%s> in <%s>", alias, type->id());
 
             keys[alias] = key;
             sortedKeys.push_back(alias);
-- 
2.43.0


From ed025f74a86d010d7ffd1f42f368071db304e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 12/28] fix: reset raw pointers when parsing null

---
 src/utils/json/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index f14d695..da8cb8b 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -104,7 +104,7 @@ struct PointerParser : public Parser
             reader.nextToken();
 
             if (isSmartPtr) ptr.call<void>("reset");
-            else ptr = inner.type->construct();
+            else ptr.assign(ptr.type()->construct());
 
             return;
         }
-- 
2.43.0


From 5837bf6b47449bd380416a935d9d5b4aea8f494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 13/28] fix: report json tokens of the wrong type instead of
 aborting

---
 src/utils/json/parser.tcc | 17 ++++++++++++-----
 src/utils/json/token.cpp  |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f2f99b3..fd56f3c 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -21,27 +21,31 @@ void parseNull(Reader& reader)
 
 bool parseBool(Reader& reader)
 {
-    return reader.expectToken(Token::Bool).asBool();
+    Token token = reader.expectToken(Token::Bool);
+    return token.type() == Token::Bool ? token.asBool() : false;
 }
 
 int64_t parseInt(Reader& reader)
 {
-    return reader.expectToken(Token::Int).asInt();
+    Token token = reader.expectToken(Token::Int);
+    return token.type() == Token::Int ? token.asInt() : 0;
 }
 
 double parseFloat(Reader& reader)
 {
     Token token = reader.nextToken();
 
-    if (token.type() == Token::Int);
-    else reader.assertToken(token, Token::Float);
+    if (token.type() != Token::Int) {
+        if (!reader.assertToken(token, Token::Float)) return 0;
+    }
 
     return token.asFloat();
 }
 
 std::string parseString(Reader& reader)
 {
-    return reader.expectToken(Token::String).asString();
+    Token token = reader.expectToken(Token::String);
+    return token.type() == Token::String ? token.asString() : std::string();
 }
 
 template<typename Fn>
@@ -59,8 +63,11 @@ void parseObject(Reader& reader, const Fn& fn)
 
     while (reader) {
         token = reader.expectToken(Token::String);
+        if (token.type() != Token::String) return;
         const std::string& key = token.asString();
+
         token = reader.expectToken(Token::KeySeparator);
+        if (token.type() != Token::KeySeparator) return;
 
         fn(key);
 
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index b410192..f8940f1 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -49,7 +49,7 @@ double
 Token::
 asFloat() const
 {
-    if (type_ != Float)
+    if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
     return std::stod(*value_);
-- 
2.43.0


From 356e62d2a5473bcec276f9fb3e81b19a91d44e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 14/28] fix: report malformed and oversized json numbers
 instead of throwing

---
 src/utils/json/json.cpp  |  2 ++
 src/utils/json/token.cpp | 23 ++++++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/utils/json/json.cpp b/src/utils/json/json.cpp
index 11c5e3a..9516154 100644
--- a/src/utils/json/json.cpp
+++ b/src/utils/json/json.cpp
@@ -14,6 +14,8 @@
 #include "dsl/all.h"
 #include "utils.h"
 
+#include <cerrno>
+#include <cstdlib>
 #include <mutex>
 #include <algorithm>
 
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index f8940f1..6bcbae6 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -42,7 +42,7 @@ asInt() const
     if (type_ != Int)
         reflectError("invalid conversion of token %s to <int>", print());
 
-    return std::stol(*value_);
+    return std::strtol(value_->c_str(), nullptr, 10);
 }
 
 double
@@ -52,7 +52,7 @@ asFloat() const
     if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
-    return std::stod(*value_);
+    return std::strtod(value_->c_str(), nullptr);
 }
 
 const std::string&
@@ -290,9 +290,17 @@ Token::Type readNumber(Reader& reader, char c)
     reader.resetBuffer();
     reader.save(c); // can be either - or [0-9].
 
+    bool valid = true;
+    size_t digits = c != '-';
+
     auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek()))
+        while (reader && std::isdigit(c = reader.peek())) {
             reader.save(reader.pop());
+            digits++;
+        }
+
+        if (!digits) valid = false;
+        digits = 0;
     };
 
     auto readChar = [&] (char c) {
@@ -322,6 +330,15 @@ Token::Type readNumber(Reader& reader, char c)
         readDigits();
     }
 
+    if (!valid) reader.error("invalid number <%s>", reader.buffer());
+
+    // Integers that don't fit are still representable as floats.
+    errno = 0;
+    if (type == Token::Int) {
+        std::strtol(reader.buffer().c_str(), nullptr, 10);
+        if (errno == ERANGE) type = Token::Float;
+    }
+
     return type;
 }
 
-- 
2.43.0


From eb83af7ff78175b636ff7f8f5099da52102e827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 15/28] fix: report json containers truncated after their
 opening token

---
 src/utils/json/parser.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index fd56f3c..124d4c7 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -61,7 +61,7 @@ void parseObject(Reader& reader, const Fn& fn)
         return;
     }
 
-    while (reader) {
+    while (true) {
         token = reader.expectToken(Token::String);
         if (token.type() != Token::String) return;
         const std::string& key = token.asString();
@@ -73,7 +73,7 @@ void parseObject(Reader& reader, const Fn& fn)
 
         token = reader.nextToken();
         if (token.type() == Token::ObjectEnd) return;
-        reader.assertToken(token, Token::Separator);
+        if (!reader.assertToken(token, Token::Separator)) return;
     }
 }
 
@@ -90,12 +90,12 @@ void parseArray(Reader& reader, const Fn& fn)
         return;
     }
 
-    for (size_t i = 0; reader; ++i) {
+    for (size_t i = 0; true; ++i) {
         fn(i);
 
         token = reader.nextToken();
         if (token.type() == Token::ArrayEnd) return;
-        reader.assertToken(token, Token::Separator);
+        if (!reader.assertToken(token, Token::Separator)) return;
     }
 }
 
-- 
2.43.0


From 8696c2a5774a9b5e4d41b409f4d7f9a5ae866a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 16/28] fix: print the token which can not be skipped

---
 src/utils/json/parser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 124d4c7..41a8eec 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -124,7 +124,7 @@ void skip(Reader& reader)
         break;
 
     default:
-        reader.error("unable to skip token %s", token);
+        reader.error("unable to skip token %s", token.print());
         break;
 
     }
-- 
2.43.0


From 3a5d77be2e546f6b05afeb71b488ef178e71184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 17/28] fix: count the lines ended by json comments

---
 src/utils/json/token.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 6bcbae6..3c9d494 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -118,13 +118,14 @@ char nextChar(Reader& reader)
         char c = reader.pop();
 
         if (c == '\n') reader.newline();
-        if (std::isspace(c)) continue;
+        if (std::isspace(static_cast<unsigned char>(c))) continue;
 
         if (c == '/' && reader.peek() == '/') {
             if (!reader.allowComments())
                 reader.error("comments are not allowed");
 
             while (reader && (c = reader.pop()) != '\n') continue;
+            if (c == '\n') reader.newline();
             continue;
         }
 
@@ -294,7 +295,7 @@ Token::Type readNumber(Reader& reader, char c)
     size_t digits = c != '-';
 
     auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek())) {
+        while (reader && std::isdigit(static_cast<unsigned char>(c = reader.peek()))) {
             reader.save(reader.pop());
             digits++;
         }
-- 
2.43.0


From 961f06cfd2befae57ec9b332f6af4c7c5c13dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 18/28] fix: stop parsing json containers after an error

---
 src/utils/json/parser.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 41a8eec..b9120c1 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -61,7 +61,7 @@ void parseObject(Reader& reader, const Fn& fn)
         return;
     }
 
-    while (true) {
+    while (!reader.error()) {
         token = reader.expectToken(Token::String);
         if (token.type() != Token::String) return;
         const std::string& key = token.asString();
@@ -90,7 +90,7 @@ void parseArray(Reader& reader, const Fn& fn)
         return;
     }
 
-    for (size_t i = 0; true; ++i) {
+    for (size_t i = 0; !reader.error(); ++i) {
         fn(i);
 
         token = reader.nextToken();
-- 
2.43.0


From 9d3de285e7823b178d3c9329f4fe538cb9a85bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 19/28] fix: escape code points past 0xFFFF as surrogate pairs

---
 src/utils/json/format.cpp |  7 +++++++
 src/utils/json/token.cpp  | 23 ++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index a699e81..a36370f 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -75,6 +75,13 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
         code = (code << 6) | (value[i] & 0x3F);
     }
 
+    // Code points past 0xFFFF are written as a pair of surrogates.
+    if (code > 0xFFFF) {
+        code -= 0x10000;
+        format(writer, "\\u%04x", 0xD800 | ((code >> 10) & 0x3FF));
+        code = 0xDC00 | (code & 0x3FF);
+    }
+
     format(writer, "\\u%04x", code);
 
     return i - 1;
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 3c9d494..7fc14f9 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -145,7 +145,7 @@ void readLiteral(Reader& reader, const char* literal)
     if (*l) reader.error("expected literal <%s>", literal);
 }
 
-void unescapeUnicode(Reader& reader)
+uint32_t readCodeUnit(Reader& reader)
 {
     uint32_t code = 0;
 
@@ -162,8 +162,29 @@ void unescapeUnicode(Reader& reader)
     }
 
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
+    return code;
+}
+
+void unescapeUnicode(Reader& reader)
+{
+    uint32_t code = readCodeUnit(reader);
     if (!reader) return;
 
+    // Code points past 0xFFFF are written as a pair of surrogates.
+    if (code >= 0xD800 && code <= 0xDBFF) {
+        readLiteral(reader, "\\u");
+        uint32_t low = readCodeUnit(reader);
+
+        if (low < 0xDC00 || low > 0xDFFF) reader.error("unpaired unicode surrogate");
+        if (!reader) return;
+
+        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+    }
+    else if (code >= 0xDC00 && code <= 0xDFFF) {
+        reader.error("unpaired unicode surrogate");
+        return;
+    }
+
     auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
         reader.save(((code >> (6 * pos)) & mask) | head);
     };
-- 
2.43.0


From 34df4ef19d921df0259b7675a446de7e8ddf45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 20/28] fix: answer function lookups in unknown scopes instead
 of aborting

---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8850893..4d6e346 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -345,8 +345,10 @@ hasFunction(const std::string& name) const
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
+    if (!split.second.empty()) {
+        if (!hasScope(split.second)) return false;
         return scope(split.second)->hasFunction(split.first);
+    }
 
     auto it = functions_.find(split.first);
     return it != functions_.end();
-- 
2.43.0


From 6166aaa6cef1581420f5f9815ddaf6c2c3122760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 21/28] fix: look up functions without creating scopes

---
 src/scope.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 4d6e346..4ef4e1f 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -354,14 +354,16 @@ hasFunction(const std::string& name) const
     return it != functions_.end();
 }
 
-Overloads&
+const Overloads&
 Scope::
-function(const std::string& name)
+function(const std::string& name) const
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->function(split.first);
+    if (!split.second.empty()) {
+        const Scope* child = scope(split.second);
+        return child->function(split.first);
+    }
 
     auto it = functions_.find(split.first);
     if (it == functions_.end())
@@ -370,11 +372,13 @@ function(const std::string& name)
     return it->second;
 }
 
-const Overloads&
+Overloads&
 Scope::
-function(const std::string& name) const
+function(const std::string& name)
 {
-    return const_cast<Scope*>(this)->function(name);
+    // The const lookup doesn't create the scopes that it goes through.
+    const Scope* self = this;
+    return const_cast<Overloads&>(self->function(name));
 }
 
 } // reflect
-- 
2.43.0


From 69cabed46c8cb2e20329c63978fe1873c6d19db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 22/28] fix: describe rejected duplicate fields before they are
 moved

---
 src/type.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/type.cpp b/src/type.cpp
index fa66f24..f1b4294 100644
--- a/src/type.cpp
+++ b/src/type.cpp
@@ -167,11 +167,13 @@ addField(const std::string& name, Field&& field)
                 field.print(), it->second.print(), id());
     }
 
-    auto ret = fields_.emplace(name, std::move(field));
-    if (!ret.second) {
+    auto fieldIt = fields_.find(name);
+    if (fieldIt != fields_.end()) {
         reflectError("field <%s> already exists as field <%s> in <%s>",
-                field.print(), ret.first->second.print(), id());
+                field.print(), fieldIt->second.print(), id());
     }
+
+    fields_.emplace(name, std::move(field));
 }
 
 void
-- 
2.43.0


From f3a4837f9feeb4e6db9169a3f333cd4e14f6ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 23/28] fix: const lookup of a nested scope doesn't create it

---
 src/scope.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 4ef4e1f..34ac12a 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -181,7 +181,8 @@ scope(const std::string& name) const
     if (it == scopes_.end())
         reflectError("<%s> doesn't have scope <%s>", name_, name);
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    const Scope* child = it->second;
+    return !split.second.empty() ? child->scope(split.second) : it->second;
 }
 
 Scope*
-- 
2.43.0


From 7058794a0cd544dfc77cfd22c2a192a5a2bb89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 24/28] fix: skip consumes a number at the end of the stream
 and reports a missing value

---
 src/utils/json/parser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index b9120c1..53d97e7 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -103,7 +103,7 @@ void parseArray(Reader& reader, const Fn& fn)
 void skip(Reader& reader)
 {
     Token token = reader.peekToken();
-    if (!reader) return;
+    if (reader.error()) return;
 
     switch (token.type()) {
 
-- 
2.43.0


From 6bd7cdcdd138e2e9ca8d6b66a08f917cd86ef526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 25/28] fix: postfix increment and decrement of values compile

---
 src/value.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/value.h b/src/value.h
index c837038..11f09f5 100644
--- a/src/value.h
+++ b/src/value.h
@@ -54,6 +54,13 @@ struct CleanValue
         return call<Value>(#op, std::forward<Arg>(arg));        \
     }
 
+// Postfix increment and decrement: the unused parameter has to be an int.
+#define reflectValueOpPostfix(op)               \
+    Value op(int arg) const                     \
+    {                                           \
+        return call<Value>(#op, arg);           \
+    }
+
 #define reflectValueOpBool(op)                          \
     template<typename Arg>                              \
     bool op(Arg&& arg) const                            \
@@ -132,10 +139,10 @@ struct Value
     reflectValueOpBinary(operator<<=)
     reflectValueOpBinary(operator>>=)
 
-    reflectValueOpUnary (operator++)
-    reflectValueOpBinary(operator++)
-    reflectValueOpUnary (operator--)
-    reflectValueOpBinary(operator--)
+    reflectValueOpUnary  (operator++)
+    reflectValueOpPostfix(operator++)
+    reflectValueOpUnary  (operator--)
+    reflectValueOpPostfix(operator--)
 
     reflectValueOpBinary(operator+)
     reflectValueOpBinary(operator-)
-- 
2.43.0


From 9149c6df8edb82454b7429498dc8e52d62d0d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 26/28] fix: reflectOperators doesn't register operator* twice

---
 src/dsl/operators.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 8ebed0c..8263213 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -34,6 +34,19 @@ namespace reflect {
     template<typename>                                          \
     void reflectOpName(name)(...) {}
 
+// Operators which share their name with another are told apart by the number of
+// arguments they take, object included.
+#define reflectOpArgsFn(op, name, args)                                 \
+    template<typename T, class = typename std::enable_if<               \
+            FunctionType<decltype(&T::op)>::ArgCount == args>::type>    \
+    void reflectOpName(name) (Type* type, std::string name)             \
+    {                                                                   \
+        reflectFunction(type, name, &T::op);                            \
+    }                                                                   \
+                                                                        \
+    template<typename>                                                  \
+    void reflectOpName(name)(...) {}
+
 #define reflectOp(op, name) reflect::reflectOpName(name)<T_>(type_, #op)
 
 
@@ -118,7 +131,7 @@ reflectOpTypedFn(operator--, DecPost, T (T::*)(int))
 // \todo Add unary +/-
 reflectOpFn(operator+,  Plus)
 reflectOpFn(operator-,  Minus)
-reflectOpFn(operator*,  Mult)
+reflectOpArgsFn(operator*, Mult, 2)
 reflectOpFn(operator/,  Div)
 reflectOpFn(operator%,  Mod)
 reflectOpFn(operator~,  BitNot)
@@ -188,7 +201,7 @@ reflectOpFn(operator>=, GEComp)
 
 reflectOpFn(operator(),  Function)
 reflectOpFn(operator[],  Array)
-reflectOpFn(operator*,   Indirection)
+reflectOpArgsFn(operator*, Indirection, 1)
 
 #define reflectOpOther()                                \
     do {                                                \
-- 
2.43.0


From a9c38f815d03cf26cbea6d8be1912767ddfebffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 27/28] fix: error messages are flushed before the program is
 aborted

---
 src/error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error.cpp b/src/error.cpp
index 94b31a1..26b979f 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -44,6 +44,7 @@ void verror(bool except, const char* file, int line, std::string msg)
     if (except) throw Error(msg);
 
     printf("%s\n", msg.c_str());
+    fflush(stdout); // abort doesn't and the message would be lost.
     abort();
 }
 
-- 
2.43.0


From b550d02ad6c901c1642d590a1449dc7f61f8c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 28/28] fix: Type::addFunction copies functors given as lvalues
 instead of moving from them

---
 src/type.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type.tcc b/src/type.tcc
index 5706ef7..5fba65e 100644
--- a/src/type.tcc
+++ b/src/type.tcc
@@ -19,7 +19,7 @@ void
 Type::
 addFunction(const std::string& name, Fn&& rawFn)
 {
-    addFunction(name, Function(name, std::move(rawFn)));
+    addFunction(name, Function(name, std::forward<Fn>(rawFn)));
 }
 
 template<typename T>
-- 
2.43.0

