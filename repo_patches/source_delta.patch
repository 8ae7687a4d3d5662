From 08564868a284b1b7528158c3cc530713510cb38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 01/24] fix: do not allocate memory for lengths the input
 cannot hold when decoding strings and vectors

---
 include/eosio/from_bin.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 2326049..7d0df8b 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -108,9 +108,11 @@ void from_bin(std::vector<T>& v, S& stream) {
    } else {
       uint32_t size;
       varuint32_from_bin(size, stream);
-      v.resize(size);
+      // size is not trustworthy; grow only as elements actually arrive
+      v.clear();
       for (size_t i = 0; i < size; ++i) {
-         from_bin(v[i], stream);
+         v.emplace_back();
+         from_bin(v.back(), stream);
       }
    }
 }
@@ -168,6 +170,7 @@ template <typename S>
 inline void from_bin(std::string& obj, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   stream.check_available(size);
    obj.resize(size);
    stream.read(obj.data(), obj.size());
 }
-- 
2.43.0


From 139c93379338e4e3475c3fe129ffa2251df2d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 02/24] fix: every field omitted at the end of a JSON object
 must be a binary extension, not only the first one

---
 src/abieos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 1c25578..add4191 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -779,7 +779,7 @@ inline void json_to_bin(pseudo_object*, json_to_bin_state& state, bool allow_ext
     auto& stack_entry = state.stack.back();
     const std::vector<eosio::abi_field>& fields = type->as_struct()->fields;
     if (state.get_end_object_pred()) {
-        if (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
+        while (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
             auto& field = fields[stack_entry.position + 1];
             if (!field.type->extension_of() || !allow_extensions) {
                 stack_entry.position = -1;
-- 
2.43.0


From 5a6da8a5a4f218da35151d0da32618ab2c10dbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 03/24] fix: accept JSON numbers whose nearest float or double
 is subnormal

---
 include/eosio/from_json.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 448f39d..fda08e7 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdlib>
 #include "for_each_field.hpp"
 #include "check.hpp"
@@ -485,7 +486,8 @@ void from_json(float& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtof(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(),
+   // ERANGE also reports results that are subnormal; only overflow is an error
+   check( !(errno && std::isinf(result)) && end == s.c_str() + s.size(),
          convert_json_error(from_json_error::expected_number) );
 }
 
@@ -497,7 +499,8 @@ void from_json(double& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtod(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(), convert_json_error(from_json_error::expected_number) );
+   check( !(errno && std::isinf(result)) && end == s.c_str() + s.size(),
+         convert_json_error(from_json_error::expected_number) );
 }
 
 /*
-- 
2.43.0


From 47c57f5d322ccf65620b776099eaf59690c12bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 04/24] fix: the terminating NUL of the base58 alphabet is not
 a base58 digit

---
 include/eosio/abieos_numeric.hpp | 2 +-
 src/crypto.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index acc8724..04096b2 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -32,7 +32,7 @@ inline constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
diff --git a/src/crypto.cpp b/src/crypto.cpp
index df10ad6..106e9ad 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,7 +27,7 @@ constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
-- 
2.43.0


From 12417ef544cd2aa81805d961a8ccc1b5ee341106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 05/24] fix: reject key and signature texts that hold more
 bytes than the key or signature

---
 src/crypto.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index 106e9ad..9f524a3 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -106,7 +106,12 @@ Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     check(memcmp(ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,
         convert_json_error(from_json_error::expected_key));
     whole.erase(whole.end() - 4, whole.end());
-    return convert_from_bin<Key>(whole);
+    Key result;
+    input_stream stream{ whole };
+    from_bin(result, stream);
+    check(stream.remaining() == 0,
+        convert_json_error(from_json_error::expected_key));
+    return result;
 }
 
 template <typename Key>
-- 
2.43.0


From 81689723d3ef2f5b58f86be4eacb370aec6f4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 06/24] fix: reject asset amounts and symbol precisions that do
 not fit instead of wrapping them

---
 include/eosio/chain_conversions.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 42c3353..056fc5c 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -2,6 +2,7 @@
 
 #include "stream.hpp"
 #include <chrono>
+#include <limits>
 #include <stdint.h>
 #include <string>
 #include <string_view>
@@ -370,7 +371,10 @@ inline std::string symbol_code_to_string(uint64_t v) {
    uint8_t precision = 0;
    bool    found     = false;
    while (pos != end && *pos >= '0' && *pos <= '9') {
-      precision = precision * 10 + (*pos - '0');
+      uint32_t p = precision * 10 + (*pos - '0');
+      if (p > std::numeric_limits<uint8_t>::max())
+         return false;
+      precision = p;
       found     = true;
       ++pos;
    }
@@ -389,7 +393,6 @@ inline std::string symbol_to_string(uint64_t v) {
 
 [[nodiscard]] inline bool string_to_asset(int64_t& amount, uint64_t& symbol, const char*& s, const char* end,
                                           bool expect_end) {
-   // todo: check overflow
    while (s != end && *s == ' ') //
       ++s;
    uint64_t uamount   = 0;
@@ -399,12 +402,22 @@ inline std::string symbol_to_string(uint64_t v) {
       ++s;
       negative = true;
    }
-   while (s != end && *s >= '0' && *s <= '9') //
-      uamount = uamount * 10 + (*s++ - '0');
+   const uint64_t limit      = uint64_t(std::numeric_limits<int64_t>::max()) + negative;
+   auto           push_digit = [&](char c) {
+      uint64_t digit = c - '0';
+      if (uamount > (limit - digit) / 10)
+         return false;
+      uamount = uamount * 10 + digit;
+      return true;
+   };
+   while (s != end && *s >= '0' && *s <= '9')
+      if (!push_digit(*s++))
+         return false;
    if (s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') {
-         uamount = uamount * 10 + (*s++ - '0');
+         if (!push_digit(*s++) || precision == std::numeric_limits<uint8_t>::max())
+            return false;
          ++precision;
       }
    }
-- 
2.43.0


From 78aeb2c2e01664a2a509961ee1a55524ef2ccc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 07/24] fix: loading an ABI for a contract that already has one
 replaces it instead of being ignored

---
 src/abieos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 5d46a1f..0510105 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -111,7 +111,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
             return set_error(context, std::move(error));
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
@@ -132,7 +132,7 @@ extern "C" abieos_bool abieos_set_abi_bin(abieos_context* context, uint64_t cont
         from_bin(def, stream);
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
-- 
2.43.0


From 536b25cc0489e6142b98628e04bce9b6ed55b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 08/24] fix: abieos_bin_to_json reports that the contract is
 not loaded

---
 src/abieos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 0510105..9db4967 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -225,7 +225,7 @@ extern "C" const char* abieos_bin_to_json(abieos_context* context, uint64_t cont
         auto contract_it = context->contracts.find(::abieos::name{contract});
         std::string error;
         if (contract_it == context->contracts.end()) {
-            (void)set_error(error, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
+            (void)set_error(context, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
             return nullptr;
         }
         auto t = contract_it->second.get_type(type);
-- 
2.43.0


From 98a67f6c6f7affb364f0c6738c86dde6e8fc7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 09/24] fix: times past 2038 overflowed and times past 2106
 wrapped when parsed

---
 include/eosio/chain_conversions.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 056fc5c..a9c573b 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -264,7 +264,7 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    return result;
 }
 
-[[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char*& s, const char* end, bool eat_fractional,
+[[nodiscard]] inline bool string_to_utc_seconds(int64_t& result, const char*& s, const char* end, bool eat_fractional,
                                                 bool require_end) {
    auto parse_uint = [&](uint32_t& result, int digits) {
       result = 0;
@@ -299,7 +299,7 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       return false;
    if (!parse_uint(sec, 2))
       return false;
-   result = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400 + h * 3600 + min * 60 + sec;
+   result = int64_t(sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count()) * 86400 + h * 3600 + min * 60 + sec;
    if (eat_fractional && s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') ++s;
@@ -307,16 +307,25 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    return s == end || !require_end;
 }
 
+[[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char*& s, const char* end, bool eat_fractional,
+                                                bool require_end) {
+   int64_t sec;
+   if (!string_to_utc_seconds(sec, s, end, eat_fractional, require_end))
+      return false;
+   result = sec;
+   return sec >= 0 && sec <= std::numeric_limits<uint32_t>::max();
+}
+
 [[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char* s, const char* end) {
    return string_to_utc_seconds(result, s, end, true, true);
 }
 
 [[nodiscard]] inline bool string_to_utc_microseconds(uint64_t& result, const char*& s, const char* end,
                                                      bool require_end) {
-   uint32_t sec;
+   int64_t sec;
    if (!string_to_utc_seconds(sec, s, end, false, false))
       return false;
-   result = sec * 1000000ull;
+   result = sec * 1000000;
    if (s == end)
       return true;
    if (*s != '.')
-- 
2.43.0


From 9a97e65ef79b70195576c4254ef0f531b85513de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 10/24] fix: large negative floating point numbers were printed
 past the end of the buffer

---
 include/eosio/fpconv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/fpconv.c b/include/eosio/fpconv.c
index 54c6d6f..46c70fb 100644
--- a/include/eosio/fpconv.c
+++ b/include/eosio/fpconv.c
@@ -214,8 +214,8 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 {
     int exp = absv(K + ndigits - 1);
 
-    /* write plain integer */
-    if(K >= 0 && (exp < (ndigits + 7))) {
+    /* write plain integer, unless it is longer than the 24 characters of dest */
+    if(K >= 0 && (exp < (ndigits + 7)) && ndigits + K + neg <= 24) {
         memcpy(dest, digits, ndigits);
         memset(dest + ndigits, '0', K);
 
-- 
2.43.0


From 9cf16f0e5c1e7bc416cb6a4754ae73edaba423e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 11/24] fix: bin_to_json wrote malformed JSON for a field
 following a missing binary extension

---
 src/abieos.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index add4191..c65989e 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -936,6 +936,7 @@ inline void bin_to_json(pseudo_object*, bin_to_json_state& state, bool allow_ext
             state.skipped_extension = true;
             return;
         }
+        eosio::check(!state.skipped_extension, eosio::convert_stream_error(eosio::stream_error::overrun));
         if(stack_entry.position != 0) { state.writer.write(','); };
         to_json(field.name, state.writer);
         state.writer.write(':');
-- 
2.43.0


From c0a62c107d45581c5be728b7c962ea3e39155227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 12/24] fix: exporting an ABI renamed the variant alternatives
 that are aliases

---
 src/abi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi.cpp b/src/abi.cpp
index 2c5d5b7..dfe20f6 100644
--- a/src/abi.cpp
+++ b/src/abi.cpp
@@ -258,7 +258,7 @@ void to_abi_def(abi_def& def, const std::string& name, const abi_type::struct_&
 void to_abi_def(abi_def& def, const std::string& name, const abi_type::variant& variant) {
    std::vector<std::string> types;
    for(const auto& [name, type] : variant) {
-      types.push_back(type->name);
+      types.push_back(name);
    }
    def.variants.value.push_back({name, std::move(types)});
 }
-- 
2.43.0


From cca9bbb69abedd1883302d9bc68b95a63731d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 13/24] fix: decoding a bool or presence byte above 1 was
 undefined behaviour

---
 include/eosio/from_bin.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 7d0df8b..efdc3aa 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -18,6 +18,14 @@ namespace eosio {
 template <typename T, typename S>
 void from_bin(T& obj, S& stream);
 
+// any nonzero byte is true; a bool must never hold another value than 0 or 1
+template <typename S>
+void from_bin(bool& obj, S& stream) {
+   uint8_t b;
+   stream.read_raw(b);
+   obj = b != 0;
+}
+
 template <typename S>
 void varuint32_from_bin(uint32_t& dest, S& stream) {
    dest          = 0;
-- 
2.43.0


From f2aacd5bea03f8a2423574dd0e5836dd2d60e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 14/24] fix: abieos_set_abi ignored whatever followed the ABI
 in the text

---
 src/abieos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 9db4967..d78bfab 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -107,6 +107,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
         std::string abi_copy{abi};
         eosio::json_token_stream stream(abi_copy.data());
         from_json(def, stream);
+        stream.get_end();
         if (!check_abi_version(def.version, error))
             return set_error(context, std::move(error));
         abieos::abi c;
-- 
2.43.0


From 2652af560cf065b0195905a857c1e21d6c121aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 15/24] fix: a write of nearly the whole address space was
 accepted by fixed_buf_stream

---
 include/eosio/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/stream.hpp b/include/eosio/stream.hpp
index 043e5be..8491e3b 100644
--- a/include/eosio/stream.hpp
+++ b/include/eosio/stream.hpp
@@ -99,7 +99,7 @@ struct fixed_buf_stream {
    }
 
    void write(const void* src, std::size_t sz) {
-      check( pos + sz <= end, convert_stream_error(stream_error::overrun) );
+      check( sz <= std::size_t(end - pos), convert_stream_error(stream_error::overrun) );
       memcpy(pos, src, sz);
       pos += sz;
    }
-- 
2.43.0


From cf141447bf101751f2ab79a6635e449a9e74767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 16/24] fix: JSON conversions ignored whatever followed a NUL
 character in the text

---
 src/abieos.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index c65989e..9c93ce9 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -507,6 +507,9 @@ ABIEOS_NODISCARD inline bool receive_event(struct json_to_jvalue_state& state, e
 
 template<typename F>
 inline void json_to_jvalue(jvalue& value, std::string_view json, F&& f) {
+    // the JSON reader takes NUL as the end of the text
+    eosio::check(json.find('\0') == std::string_view::npos,
+        eosio::convert_json_error(eosio::from_json_error::document_root_not_singular));
     std::string mutable_json{json};
     mutable_json.push_back(0);
     mutable_json.push_back(0);
@@ -738,6 +741,9 @@ inline void json_to_bin(std::string*, State& state, bool, const abi_type*,
 
 template<typename F>
 inline void json_to_bin(std::vector<char>& bin, const abi_type* type, std::string_view json, F&& f) {
+    // the JSON reader takes NUL as the end of the text
+    eosio::check(json.find('\0') == std::string_view::npos,
+        eosio::convert_json_error(eosio::from_json_error::document_root_not_singular));
     std::string mutable_json{json};
     mutable_json.push_back(0);
     mutable_json.push_back(0);
-- 
2.43.0


From db98ce786afc52cbc02a641eb49faec6108e0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 17/24] fix: clear sets, maps, lists and deques before decoding
 into them

---
 include/eosio/from_bin.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index efdc3aa..454495b 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -66,6 +66,7 @@ template <typename T, typename S>
 void from_bin_assoc(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       typename T::value_type elem;
       from_bin(elem, stream);
@@ -77,6 +78,7 @@ template <typename T, typename S>
 void from_bin_sequence(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       v.emplace_back();
       from_bin(v.back(), stream);
@@ -134,6 +136,7 @@ template <typename T, typename U, typename S>
 void from_bin(std::map<T, U>& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       std::pair<T, U> elem;
       from_bin(elem, stream);
-- 
2.43.0


From 0102b2b8d1f3c6632aec9cab3f12129f6fb62591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 18/24] fix: do not read or write beyond a JSON text cut off
 inside of a multi-byte character

---
 include/eosio/from_json.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index fda08e7..f5351c5 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -178,10 +178,32 @@ struct json_token {
    std::string_view value_string = {};
 };
 
+// Stays at the terminating NUL: checking the encoding of a string that is cut off inside
+// of a multi-byte character would otherwise read and write beyond the text.
+struct json_insitu_stream : rapidjson::InsituStringStream {
+   using rapidjson::InsituStringStream::InsituStringStream;
+
+   char Take() { return *src_ ? *src_++ : '\0'; }
+   void Put(char c) {
+      if (dst_ < src_)
+         *dst_++ = c;
+   }
+};
+
+} // namespace eosio
+
+// like rapidjson::InsituStringStream; the parser relies on this to return numbers in situ
+template <>
+struct rapidjson::StreamTraits<eosio::json_insitu_stream> {
+   enum { copyOptimization = 1 };
+};
+
+namespace eosio {
+
 class json_token_stream : public rapidjson::BaseReaderHandler<rapidjson::UTF8<>, json_token_stream> {
  private:
-   rapidjson::Reader             reader;
-   rapidjson::InsituStringStream ss;
+   rapidjson::Reader  reader;
+   json_insitu_stream ss;
 
  public:
    json_token current_token;
-- 
2.43.0


From e72f1c18a86ba94fca8390238e5b2f43d1789946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:20 +0000
Subject: [PATCH 19/24] fix: decoding a value that may be missing kept the
 object's old value when it is missing

---
 include/eosio/abi.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/abi.hpp b/include/eosio/abi.hpp
index 7a1bc2a..162de70 100644
--- a/include/eosio/abi.hpp
+++ b/include/eosio/abi.hpp
@@ -49,6 +49,7 @@ template <typename T, typename S>
 void from_bin(might_not_exist<T>& obj, S& stream) {
     if (stream.remaining())
         return from_bin(obj.value, stream);
+    obj.value = T{};
 }
 
 template <typename T, typename S>
-- 
2.43.0


From 449c8e169f71f14da7a1ab1e11a26b320b442285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:05 +0000
Subject: [PATCH 20/24] fix: clear a vector before reading a JSON array into it

---
 include/eosio/from_json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index f5351c5..e8b0ab9 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -565,6 +565,7 @@ void from_json(bool& result, S& stream) {
 template <typename T, typename S>
 void from_json(std::vector<T>& result, S& stream) {
    stream.get_start_array();
+   result.clear();
    while (true) {
       auto t = stream.peek_token();
       if (t.get().type == json_token_type::type_end_array)
-- 
2.43.0


From d6cca60376dcea735eb779d97f1216660c728846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:18 +0000
Subject: [PATCH 21/24] fix: eosio::days() could not be called: the name also
 meant a std::chrono duration

---
 include/eosio/chain_conversions.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index a9c573b..facbb85 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -13,14 +13,14 @@ namespace eosio {
 
 // TODO remove in c++20
 namespace {
-using days = std::chrono::duration
+using chrono_days = std::chrono::duration
     <int, std::ratio_multiply<std::ratio<24>, std::chrono::hours::period>>;
 
 using weeks = std::chrono::duration
-    <int, std::ratio_multiply<std::ratio<7>, days::period>>;
+    <int, std::ratio_multiply<std::ratio<7>, chrono_days::period>>;
 
 using years = std::chrono::duration
-    <int, std::ratio_multiply<std::ratio<146097, 400>, days::period>>;
+    <int, std::ratio_multiply<std::ratio<146097, 400>, chrono_days::period>>;
 
 using months = std::chrono::duration
     <int, std::ratio_divide<years::period, std::ratio<12>>>;
@@ -49,19 +49,19 @@ struct year {
 template <class Duration>
 using sys_time = std::chrono::time_point<std::chrono::system_clock, Duration>;
 
-using sys_days    = sys_time<days>;
+using sys_days    = sys_time<chrono_days>;
 using sys_seconds = sys_time<std::chrono::seconds>;
 
 typedef year year_t;
 typedef month month_t;
 typedef day day_t;
 struct year_month_day {
-   inline auto from_days( days ds ) {
+   inline auto from_days( chrono_days ds ) {
       const auto z = ds.count() + 719468;
       const auto era = (z >= 0 ? z : z - 146096) / 146097;
       const auto doe = static_cast<uint32_t>(z - era * 146097);
       const auto yoe = (doe - doe/1460 + doe/36524 - doe/146096) / 365;
-      const auto y   = static_cast<days::rep>(yoe) + era * 400;
+      const auto y   = static_cast<chrono_days::rep>(yoe) + era * 400;
       const auto doy = doe - (365 * yoe + yoe/4 - yoe/100);
       const auto mp  = (5*doy + 2)/153;
       const auto d   = doy - (153*mp+2)/5 + 1;
@@ -76,7 +76,7 @@ struct year_month_day {
       const auto yoe = static_cast<uint32_t>(_y - era * 400);
       const auto doy = (153*(_m > 2 ? _m-3 : _m+9) + 2)/5 + _d-1;
       const auto doe = yoe * 365 + yoe/4 -yoe/100 + doy;
-      return days{era * 146097 + static_cast<int>(doe) - 719468};
+      return chrono_days{era * 146097 + static_cast<int>(doe) - 719468};
    }
    inline year_month_day(const year_t& y, const month_t& m, const day_t& d)
       : y(y), m(m), d(d) {}
@@ -244,7 +244,7 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    };
 
    std::chrono::microseconds us{ microseconds };
-   sys_days                  sd(std::chrono::floor<days>(us));
+   sys_days                  sd(std::chrono::floor<chrono_days>(us));
    auto                      ymd = year_month_day{ sd };
    uint32_t                  ms  = (std::chrono::floor<std::chrono::milliseconds>(us) - sd.time_since_epoch()).count();
    us -= sd.time_since_epoch();
-- 
2.43.0


From a5fae827a3474b733d01269f34af29c163c652d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 22/24] fix: with ABIEOS_NO_INT128, an empty string is not a
 128-bit integer

---
 include/eosio/abieos_numeric.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index 04096b2..dbad56f 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -57,6 +57,7 @@ void negate(std::array<uint8_t, size>& a) {
 template <auto size>
 inline void decimal_to_binary(std::array<uint8_t, size>& result,
                                                               std::string_view s) {
+    eosio::check(!s.empty(), eosio::convert_json_error(eosio::from_json_error::expected_int));
     memset(result.begin(), 0, result.size());
     for (auto& src_digit : s) {
        eosio::check(!(src_digit < '0' || src_digit > '9'),
-- 
2.43.0


From 58c707b6187dae5e021b2712870743587067775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 23/24] fix: with ABIEOS_NO_INT128, accept "-0" as an int128 as
 elsewhere

---
 src/abieos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 9c93ce9..e7768c3 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -420,7 +420,7 @@ void from_json(int128& obj, S& stream) {
     if (s.size() && s[0] == '-') {
         decimal_to_binary(obj.data, {s.data() + 1, s.size() - 1});
         negate(obj.data);
-        eosio::check(is_negative(obj.data), eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
+        eosio::check(is_negative(obj.data) || obj.data == decltype(obj.data){}, eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
     } else {
         decimal_to_binary(obj.data, s);
         eosio::check(!is_negative(obj.data), eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
-- 
2.43.0


From 4950bacd4dabb062e2a56c5c6c146777ab4fe00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:23 +0000
Subject: [PATCH 24/24] fix: symbol_code::is_valid() refuses an eighth letter

---
 include/eosio/symbol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/symbol.hpp b/include/eosio/symbol.hpp
index e33dd3e..abfda56 100644
--- a/include/eosio/symbol.hpp
+++ b/include/eosio/symbol.hpp
@@ -86,7 +86,7 @@ class symbol_code {
             } while (i < 7);
          }
       }
-      return true;
+      return sym == 0; // no eighth letter
    }
 
    /**
-- 
2.43.0

