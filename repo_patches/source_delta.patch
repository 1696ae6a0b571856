From 466eeb1f73a9335d5615c94eb948e8264b22d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 01/39] fix: skip all remaining fields of a partially consumed
 scope

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9051a2f..da6db7d 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -527,7 +527,7 @@ void Node::consume_scope()
 
         if(tp == Type::Scope_End) {
             depth--;
-            if(depth <= 0) {
+            if(depth < 0) {
                 this->parsed = true;
             }
         }
-- 
2.43.0


From 99a23edafafc679c3538d10f0082421b3fae278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 02/39] fix: decode JSON unicode escapes in the right byte
 order and combine surrogate pairs

---
 src/lib/PJson.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 1824c2c..ce2adc2 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -14,13 +14,34 @@ namespace {
     };
 
     const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
-        uint8_t hex_buffer[2];
-        /* skip "\u" and read 4 hex digits */
-        auto block = src.read_block(2 + 4, error);
+        /* up to two UTF-16 code units, little endian */
+        uint8_t units[4];
+        size_t size = 0;
 
-        Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
+        const auto read_unit = [&] {
+            uint8_t hex_buffer[2];
+            /* skip "\u" and read 4 hex digits */
+            auto block = src.read_block(2 + 4, error);
 
-        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, 2, Encoding::UTF16), buf, true, idx);
+            if(block.ptr[0] != '\\' || block.ptr[1] != 'u') {
+                throw Exception("Unable to parse JSON document. Unpaired surrogate.");
+            }
+
+            Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
+
+            units[size++] = hex_buffer[1];
+            units[size++] = hex_buffer[0];
+        };
+
+        read_unit();
+
+        bool is_high_surrogate = (units[1] & 0xFC) == 0xD8;
+
+        if(is_high_surrogate) {
+            read_unit();
+        }
+
+        return Tools::conv_charset(Encoding::UTF8, String(units, size, Encoding::UTF16), buf, true, idx);
     };
 
     constexpr array<const char, 2> ar(const char c)
-- 
2.43.0


From 35aaff8d32d0639f63fde36cfe34f4c7eac94563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 03/39] fix: respect the buffer offset when conv_charset grows
 its output buffer

---
 src/lib/ToolsStrConv.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index c554a22..b3bbb5a 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -376,11 +376,10 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
 
         if (errno == E2BIG) {
             /* output buffer not big enough */
-            auto current = buffer.size();
             auto new_size = buffer.size() + left_in * 4;
+            converted = buffer.size() - buffer_index - left_out;
             buffer.resize(new_size);
-            converted = current - left_out;
-            left_out = new_size - converted;
+            left_out = new_size - buffer_index - converted;
         }
     }
 
-- 
2.43.0


From 39c46363cd90a78cae8fc3c8a249bccbdbc0f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 04/39] fix: keep the anchor when a streamed block spans
 several reads

---
 src/lib/In.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index ea31829..b118a07 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -77,7 +77,7 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto bytes_read = (size_t)this->stream->gcount();
 
     this->pos  = &this->buffer[preserve_sz - left];
-    anchor = anchor ? nullptr : &this->buffer[margin];
+    anchor = anchor ? &this->buffer[margin] : nullptr;
 
     this->start = this->buffer.data();
     this->end   = this->buffer.data() + bytes_read + preserve_sz;
-- 
2.43.0


From ac495b60bd2897390a49fd0c7c371597460ae9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 05/39] fix: detect every overflow when converting decimal
 strings to integers

---
 src/lib/ToolsStrConv.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index b3bbb5a..4a11806 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -58,7 +58,8 @@ namespace {
             idx = 1;
         }
 
-        uint64_t tmp = 0;
+        const auto max = numeric_limits<uint64_t>::max();
+
         for(char c = '\0'; idx < str_len; idx++) {
             c = str[idx];
 
@@ -66,12 +67,12 @@ namespace {
                 break;
             }
 
-            tmp = val * 10 + c - '0';
-            if(tmp < val) {
+            uint64_t digit = c - '0';
+            if(val > (max - digit) / 10) {
                 /* overflow */
                 break;
             }
-            val = tmp;
+            val = val * 10 + digit;
         }
 
         bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
-- 
2.43.0


From a2486fc9f747aed3eff44184fb34f052ef05f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 06/39] fix: do not print floating point values of 2^63 as
 integers

---
 src/lib/ToolsStrConv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 4a11806..3bc305c 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -135,7 +135,7 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val <= (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        if(floor(val) == val && val < (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
-- 
2.43.0


From 744bb71ad781c10e4e55629fd6eb1386765cb033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 07/39] fix: reject NaN and values of 2^63 / 2^64 when
 converting floating point to integers

---
 include/Srl/TpTools.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/Srl/TpTools.h b/include/Srl/TpTools.h
index 32d973e..2eecd38 100644
--- a/include/Srl/TpTools.h
+++ b/include/Srl/TpTools.h
@@ -143,6 +143,24 @@ namespace Srl { namespace TpTools {
             return true;
         }
 
+        template<class T>
+        typename std::enable_if<std::is_floating_point<T>::value, bool>::type
+        fp_overflows(double val)
+        {
+            return val < min<T>() || val > (double)max<T>();
+        }
+
+        template<class T>
+        typename std::enable_if<!std::is_floating_point<T>::value, bool>::type
+        fp_overflows(double val)
+        {
+            /* the maximum of 64 bit integers is rounded up when converted to double */
+            bool in_range = val >= (double)min<T>() &&
+                            (sizeof(T) < sizeof(double) ? val <= (double)max<T>() : val < (double)max<T>());
+
+            return !in_range;
+        }
+
         template<class T, Type TP>
         typename std::enable_if<is_fp(TP), bool>::type
         try_apply(T& target, const Value& value)
@@ -150,7 +168,7 @@ namespace Srl { namespace TpTools {
             double val = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
 
             if(SrlType<T>::type != TP && SrlType<T>::type != Type::FP64 &&
-              (val < min<T>() || val > (double)max<T>())) {
+               fp_overflows<T>(val)) {
 
                 return false;
             }
-- 
2.43.0


From 4a1f3ad6df486b78938995699ba456c54cb82418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 08/39] fix: move the memory of a hash table together with its
 entries

---
 include/Srl/Hash.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a25c667..3265dc6 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -24,6 +24,10 @@ namespace Srl { namespace Lib {
 
         this->table     = m.table;
         this->mem_cache = std::move(m.mem_cache);
+        this->heap      = std::move(m.heap);
+
+        m.table = nullptr;
+        m.mem_cache.clear();
 
         return *this;
     }
-- 
2.43.0


From a911f62f09c5eac52ac0193b32aed05e15f735b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 09/39] fix: storing neither leaks parsing mode nor shared keys
 into later operations

---
 include/Srl/Tree.hpp | 11 ++++++++++-
 src/lib/Tree.cpp     | 21 +++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a05fbba..c7215c7 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -58,13 +58,22 @@ namespace Srl {
         this->env->set_output(parser, out);
         this->env->parsing = true;
 
+        /* leave parsing mode, even if inserting throws */
+        struct Guard {
+            Lib::Environment& env;
+            ~Guard()
+            {
+                env.shared_table_store.clear();
+                env.parsing = false;
+            }
+        } guard { *this->env };
+
         this->env->write(Value(Type::Object), "");
 
         this->root_node->insert(items...);
 
         this->env->write(Value(Type::Scope_End), "");
 
-        this->env->parsing = false;
         this->env->out.flush();
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 680928c..dc3c8b1 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,7 +55,24 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
-    this->env->parsing = true;
+
+    /* storing must not affect the state of the tree, even if store_switch throws */
+    struct Guard {
+        Guard(Environment& env_) : env(env_)
+        {
+            swap(env.shared_table_store, shared);
+            env.parsing = true;
+        }
+        ~Guard()
+        {
+            swap(env.shared_table_store, shared);
+            env.parsing = false;
+        }
+        Environment& env;
+        decltype(Environment::shared_table_store) shared { 16 };
+    };
+
+    auto guard = make_unique<Guard>(*this->env);
 
     auto& name = this->root_node->name();
     this->env->write(Value(type), name);
@@ -64,7 +81,7 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
 
     this->env->write(Value(Type::Scope_End), name);
 
-    this->env->parsing = false;
+    guard.reset();
     this->env->out.flush();
 }
 
-- 
2.43.0


From a42a129253648735d0ee555175e37b62fb147e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 10/39] fix: throw when getting an item by an index out of
 bounds

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index da6db7d..53c8804 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -238,7 +238,7 @@ Union Node::get(size_t index)
         return Union(resnode->field);
     }
 
-    auto* resvalue = get_link_at_index<None>(index, this->values);
+    auto* resvalue = get_link_at_index<Throw>(index, this->values);
 
     return Union(resvalue->field);
 }
-- 
2.43.0


From 30eddda68e510891dc685d05a03925975a5b1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 11/39] fix: patch reserved bytes relative to the initial
 position of the output stream

---
 include/Srl/Out.h   | 1 +
 include/Srl/Out.hpp | 2 +-
 src/lib/Out.cpp     | 3 +++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Out.h b/include/Srl/Out.h
index ba9ac30..8032c75 100644
--- a/include/Srl/Out.h
+++ b/include/Srl/Out.h
@@ -71,6 +71,7 @@ namespace Srl { namespace Lib {
 
         bool streaming;
         std::ostream* stream = nullptr;
+        std::streamoff stream_start = 0;
         std::vector<uint8_t>* buffer = nullptr;
 
         void inc_cap          (size_t nbytes);
diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index f653d2c..75de86a 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -49,7 +49,7 @@ namespace Srl { namespace Lib {
         } else {
             auto crr = this->stream->tellp();
 
-            this->stream->seekp(ticket.pos + offset);
+            this->stream->seekp(this->stream_start + ticket.pos + offset);
             this->stream->write((const char*)bytes, nbytes);
 
             this->stream->seekp(crr);
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 39ae254..e5e22c8 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -13,6 +13,9 @@ void Out::set(Source source)
     this->streaming = source.is_stream;
     this->stream = source.is_stream ? source.stream : nullptr;
     this->buffer = !source.is_stream ? source.buffer : nullptr;
+
+    auto pos = source.is_stream ? std::streamoff(source.stream->tellp()) : 0;
+    this->stream_start = pos > 0 ? pos : 0;
 }
 
 void Out::inc_cap(size_t nbytes)
-- 
2.43.0


From 38e617543c487215f79898e87a1f26b6a04dbf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 12/39] fix: MessagePack lengths of strings and binaries are
 big endian

---
 src/lib/PMsgPack.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c4ba12e..fd41907 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -137,12 +137,12 @@ namespace {
         } else if (block.size <= 0xFFFE) {
             uint16_t sz = block.size;
             out.write_byte(0xC5);
-            out.write(sz);
+            out.write(swap_bytes(sz));
 
         } else {
             uint32_t sz = block.size;
             out.write_byte(0xC6);
-            out.write(sz);
+            out.write(swap_bytes(sz));
         }
 
         out.write(block.ptr, block.size);
@@ -164,12 +164,12 @@ namespace {
         } else if (block.size <= 0xFFFE) {
             uint16_t sz = block.size;
             out.write_byte(0xDA);
-            out.write(sz);
+            out.write(swap_bytes(sz));
 
         } else {
             uint32_t sz = block.size;
             out.write_byte(0xDB);
-            out.write(sz);
+            out.write(swap_bytes(sz));
         }
 
         out.write(block.ptr, block.size);
@@ -284,8 +284,8 @@ namespace {
 
         return prefix >= 0xA0 && prefix <= 0xBF ? (prefix & 0x1F)
              : prefix == 0xD9 ? in.read_move<uint8_t>(error)
-             : prefix == 0xDA ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     size_t get_bin_size(uint8_t prefix, In& in)
@@ -293,8 +293,8 @@ namespace {
         assert(prefix_is_bin(prefix));
 
         return prefix == 0xC4 ? in.read_move<uint8_t>(error)
-             : prefix == 0xC5 ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     Value read_str(uint8_t prefix, In& in)
-- 
2.43.0


From fc362c496f1bccdff3089d3412397a4295f808eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 13/39] fix: reject the reserved MessagePack prefix 0xC1

---
 src/lib/PMsgPack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index fd41907..52fa1ed 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -240,7 +240,7 @@ namespace {
     {
         return (prefix >= 0xCA && prefix <= 0xD3) || // integers / floats
                 prefix <= 0x7F || prefix >= 0xE0  || // pos fixnum / neg fixnum
-                prefix == 0xC2 || prefix <= 0xC3  || // true / false
+                prefix == 0xC2 || prefix == 0xC3  || // true / false
                 prefix == 0xC0;                      // null
     }
 
-- 
2.43.0


From f327b9e8d54f1443a6a47bdc325a0a73b433e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 14/39] fix: terminate converted strings in character arrays at
 the converted size

---
 include/Srl/Resolve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index e515c00..8aeeabd 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -175,7 +175,7 @@ namespace Srl { namespace Lib {
         static WrapArray(const T& str)
         {
             size_t size = 0;
-            while(size < str_size && str[size]) size++;
+            while(size < str_size / chr_size && str[size]) size++;
 
             return MemBlock(reinterpret_cast<const uint8_t*>(str), size * chr_size);
         }
@@ -207,7 +207,7 @@ namespace Srl { namespace Lib {
 
                 Aux::check_size_max(str_size, conv_size, id);
                 memcpy(str, buffer.data(), conv_size);
-                str[value.size() / chr_size] = 0;
+                str[conv_size / chr_size] = 0;
             }
         }
     };
-- 
2.43.0


From 10a69498b7e33995691d80e37257f5af3d6810c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 15/39] fix: reject malformed base64 strings

---
 include/Srl/Resolve.hpp  |  2 +-
 src/lib/ToolsBtsConv.cpp | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 8aeeabd..fdc7fb6 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -867,7 +867,7 @@ namespace Srl { namespace Lib {
             }
             uint8_t* data_dst = wrap.alloc(size);
 
-            if(size == 0) {
+            if(size == 0 && mem_block.size == 0) {
                 return;
             }
 
diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index a500d98..f455376 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -113,13 +113,17 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
     for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
                out_idx += 3, in_idx += 4) {
 
-        uint8_t b0 = table.decode[ (size_t) str[in_idx] ],
-                b1 = table.decode[ (size_t) str[in_idx + 1] ],
-                b2 = table.decode[ (size_t) str[in_idx + 2] ],
-                b3 = table.decode[ (size_t) str[in_idx + 3] ];
+        uint8_t b0 = table.decode[ (uint8_t) str[in_idx] ],
+                b1 = table.decode[ (uint8_t) str[in_idx + 1] ],
+                b2 = table.decode[ (uint8_t) str[in_idx + 2] ],
+                b3 = table.decode[ (uint8_t) str[in_idx + 3] ];
 
-        if(b0 == table.val_invalid || b1 == table.val_invalid ||
-           b2 == table.val_invalid || b3 == table.val_invalid) {
+        /* fill characters are only valid at the end of the string */
+        bool last = in_idx + 4 == str_len;
+
+        if(b0 >= table.val_fill || b1 >= table.val_fill ||
+           b2 == table.val_invalid || (b2 == table.val_fill && (!last || b3 != table.val_fill)) ||
+           b3 == table.val_invalid || (b3 == table.val_fill && !last)) {
             throw Exception("Unable to convert base64 string to binary data. String malformed.");
         }
         /* [BBBBBB BB]BBBB BBBBBB BBBBBB */
-- 
2.43.0


From ef048ce8a659b8b3eba3f1a8ef97d66a814ee41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 16/39] fix: reject binary data that does not fit the element
 size of a VecWrap

---
 include/Srl/BitWrap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index dc0b176..4707a16 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -40,8 +40,11 @@ namespace Srl {
         VecWrap(std::vector<T>& vec_)
             : vec(&vec_), bitwrap(
                 (uint8_t*)vec->data(), vec->size() * sizeof(T),
-                [this](size_t sz)
+                [this](size_t sz) -> uint8_t*
                 {
+                    if(sz % sizeof(T) != 0) {
+                        return nullptr;
+                    }
                     vec->resize(sz / sizeof(T));
                     bitwrap.data = { (uint8_t*)vec->data(), sz };
                     return (uint8_t*)vec->data();
-- 
2.43.0


From 9c143e9de69151f3f8c264f864436ec8430dc466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 17/39] fix: restoring pointers neither uses a dangling type id
 nor leaves dangling pointers on errors

---
 include/Srl/Resolve.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index fdc7fb6..a55c737 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -452,15 +452,15 @@ namespace Srl { namespace Lib {
             Aux::check_type_scope(node.type(), id);
 
             Context ctx(node, Mode::Paste);
-            String type_id;
+            std::string type_id;
             ctx(Aux::str_type_id, type_id);
 
+            auto uptr = Lib::registrations()->create<U>(type_id);
+            uptr->srl_resolve(ctx);
+
             if(o != nullptr) {
                 delete o;
             }
-
-            auto uptr = Lib::registrations()->create<U>(type_id);
-            uptr->srl_resolve(ctx);
             o = uptr.release();
         }
     };
@@ -703,20 +703,17 @@ namespace Srl { namespace Lib {
         template<class Item, class ID = String>
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
-
-            if(p != nullptr) {
-                delete p;
-            }
-
             auto val_type = item.type();
 
             if(val_type == Type::Null) {
+                delete p;
                 p = nullptr;
                 return;
             }
 
             auto uptr = Ctor<E>::Create_New();
             Switch<E>::Paste(*uptr.get(), item, id);
+            delete p;
             p = uptr.release();
         }
     };
-- 
2.43.0


From 0c40cbc1bb084aa618617d5091389f38592dbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 18/39] fix: the root of a loaded object has the type of the
 object

---
 include/Srl/Tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index c7215c7..e130b39 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -170,6 +170,7 @@ namespace Srl {
     void Tree::load_object(const T& type)
     {
         this->clear();
+        this->root().scope_type = Lib::Aux::TypeSwitch<T>::type;
         Lib::Aux::TypeSwitch<T>::Insert(type, *this);
     }
 }
-- 
2.43.0


From 3a0d42b41aca5f684c93611a63ab52dd4f0a56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 19/39] fix: reject JSON documents with mismatched brackets

---
 src/lib/PJson.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index ce2adc2..6bb043f 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -257,6 +257,10 @@ void PJson::process_bracket(char bracket, State& state)
             this->throw_exception(state, "Redundant scope delimiter.");
         }
 
+        if((bracket == ']') != (this->scope_type == Type::Array)) {
+            this->throw_exception(state, "Mismatched scope delimiter.");
+        }
+
         this->scope_stack.pop();
         this->scope_type = !this->scope_stack.empty()
             ? this->scope_stack.top()
-- 
2.43.0


From 7cbd275296647f263ca1c52cdf1843205f7552cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 20/39] fix: reject surplus elements when restoring arrays
 directly

---
 include/Srl/Resolve.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index a55c737..beb3dab 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -609,6 +609,12 @@ namespace Srl { namespace Lib {
                 }
 
                 Aux::check_size(len, count, id);
+
+                node.consume_item<E>();
+                if(!node.parsed) {
+                    /* not at the end of the scope, there are surplus elements */
+                    Aux::check_size(len, len + 1, id);
+                }
             }
         }
     };
-- 
2.43.0


From c078c63c216f4b5a108e1560445dd56a25074381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 21/39] fix: translate nodes that are not part of a tree to
 source

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 53c8804..ca870eb 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -508,7 +508,7 @@ void Node::to_source()
     }
 
     Value scope_end = Value(Type::Scope_End);
-    this->env->write(scope_end, *this->name_ptr);
+    this->env->write(scope_end, this->name());
 }
 
 void Node::consume_scope()
-- 
2.43.0


From f3717ba5d6155d044524ffd88843b64db4a52582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 22/39] fix: PSrl keeps its own copy of field names while
 writing

---
 src/lib/PSrl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 565efa0..0557bb3 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -127,14 +127,16 @@ void PSrl::write_head(Flag flag, const MemBlock& str, Out& out)
 
     auto nstrings = this->hashed_strings.num_entries();
 
-    bool exists; size_t* index;
-    tie(exists, index) = this->hashed_strings.insert(str, nstrings);
+    auto* index = this->hashed_strings.get(str);
 
-    if(exists) {
+    if(index) {
         out.write_byte(flag | FIndexed);
         encode_integer(*index, out);
 
     } else {
+        /* the memory of the name isn't guaranteed to outlive this call */
+        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);
+
         out.write_byte(flag);
         encode_integer(str.size, out);
         out.write(str);
-- 
2.43.0


From f3649fcf23206e317d96479536debac0c03bffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 23/39] fix: the root node does not refer to parser and source
 after restoring

---
 include/Srl/Tree.hpp | 6 ++++++
 src/lib/Tree.cpp     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index e130b39..95bafa0 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -84,6 +84,12 @@ namespace Srl {
 
         this->root_node->parsed = false;
 
+        /* parser and source are not available beyond this call */
+        struct Guard {
+            ~Guard() { root.parsed = true; }
+            Node& root;
+        } guard { *this->root_node };
+
         this->root_node->paste(items...);
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index dc3c8b1..998b28b 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -96,6 +96,12 @@ void Tree::read_source(Parser& parser, In::Source source, const function<void()>
     prologue_in(parser, source);
     this->root_node->parsed = false;
 
+    /* parser and source are not available beyond this call */
+    struct Guard {
+        ~Guard() { root.parsed = true; }
+        Node& root;
+    } guard { *this->root_node };
+
     restore_switch();
 }
 
-- 
2.43.0


From f08ac8aa6b5b3918c6dae7ff11dc06e2c6d303fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 24/39] fix: do not read beyond the end of truncated data

---
 include/Srl/In.h   |  1 +
 include/Srl/In.hpp | 24 ++++++++++++++++++++++--
 src/lib/PJson.cpp  |  3 ++-
 src/lib/PSrl.cpp   | 15 ++++++++++-----
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/include/Srl/In.h b/include/Srl/In.h
index d591434..dd3692b 100644
--- a/include/Srl/In.h
+++ b/include/Srl/In.h
@@ -49,6 +49,7 @@ namespace Srl { namespace Lib {
         inline void move           (size_t steps, const Error& error);
         inline const uint8_t* peek (size_t steps, const Error& error);
         inline bool     try_peek   (size_t steps);
+        inline bool     at_end     () const;
         inline MemBlock read_block (size_t steps, const Error& error);
 
         template<class T>
diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 00ae2a7..e8a0a5c 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -43,7 +43,7 @@ namespace Srl { namespace Lib {
     template<bool Not, class... Tokens>
     size_t In::move_until(const Error& error, const Tokens&... tokens)
     {
-        if(!this->pos) {
+        if(!this->pos || this->at_end()) {
             error();
         }
         auto steps = 0U;
@@ -51,6 +51,10 @@ namespace Srl { namespace Lib {
         while(Not == this->is_at_token(tokens...)) {
             this->move(1, error);
             steps++;
+
+            if(this->at_end()) {
+                error();
+            }
         }
 
         return steps;
@@ -93,6 +97,12 @@ namespace Srl { namespace Lib {
         return this->pos + steps < this->end || this->try_fetch_data(steps);
     }
 
+    /* there is no token at the current position */
+    inline bool In::at_end() const
+    {
+        return this->streaming ? this->pos >= this->end : this->pos + 1 >= this->end;
+    }
+
     inline MemBlock In::read_block(size_t steps, const Error& error)
     {
         this->anchor = this->pos;
@@ -116,7 +126,17 @@ namespace Srl { namespace Lib {
         auto steps = 0U;
         auto bufsz = buf.size();
 
-        while(*this->peek(0, error) != delimiter) {
+        while(true) {
+
+            this->peek(0, error);
+
+            if(this->at_end()) {
+                error();
+            }
+
+            if(*this->pos == delimiter) {
+                break;
+            }
 
             if(steps + 1 > bufsz) {
                 bufsz += steps + 10;
diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 6bb043f..0badf69 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -99,7 +99,8 @@ namespace {
     {
         assert(*source.pointer() == '/');
 
-        if(!source.try_peek(1)) {
+        /* there has to be a token following the slash */
+        if(!source.try_peek(2)) {
             return;
         }
 
diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 0557bb3..9f9cbde 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -88,6 +88,10 @@ namespace {
 
     uint64_t decode_integer(In& source)
     {
+        if(source.at_end()) {
+            error();
+        }
+
         uint8_t  block       = *source.pointer();
         uint64_t out_integer = mask_reset_msb & block;
 
@@ -95,16 +99,17 @@ namespace {
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
         while(mask_msb & block) {
             source.move(1, error);
+
+            /* no support for integers > 64 bit */
+            if(source.at_end() || shift >= 10 * 7) {
+                error();
+            }
+
             block = *source.pointer();
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
         }
 
-        /* no support for integers > 64 bit */
-        if(shift > 10 * 7) {
-            error();
-        }
-
         source.move(1, error);
 
         return out_integer;
-- 
2.43.0


From 2a3fa1d390dfa5bf16516aaeb8ac0b980b53b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 25/39] fix: handle bogus block lengths in malformed data

---
 include/Srl/In.hpp |  4 ++--
 src/lib/In.cpp     | 29 ++++++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index e8a0a5c..d2c695d 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -86,7 +86,7 @@ namespace Srl { namespace Lib {
 
     inline const uint8_t* In::peek(size_t steps, const Error& error)
     {
-        if(this->pos + steps >= this->end) {
+        if(steps >= (size_t)(this->end - this->pos)) {
             this->fetch_data(steps, error);
         }
         return this->pos;
@@ -94,7 +94,7 @@ namespace Srl { namespace Lib {
 
     inline bool In::try_peek(size_t steps)
     {
-        return this->pos + steps < this->end || this->try_fetch_data(steps);
+        return steps < (size_t)(this->end - this->pos) || this->try_fetch_data(steps);
     }
 
     /* there is no token at the current position */
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index b118a07..bd22066 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -63,18 +63,37 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto margin = preserve_pos < margin_sz ? margin_sz - (margin_sz - preserve_pos) : margin_sz;
 
     auto preserve_sz = this->end - (this->start + preserve_pos - margin);
-    auto bufsz = preserve_sz + read_len;
 
-    if(this->buffer.size() < bufsz) {
-        this->buffer.resize(bufsz);
+    if(this->buffer.size() < (size_t)preserve_sz) {
+        this->buffer.resize(preserve_sz);
     }
 
     if(preserve_sz > 0) {
         memmove(this->buffer.data(), &this->buffer[preserve_pos - margin], preserve_sz);
     }
 
-    this->stream->read((char*)&this->buffer[preserve_sz], read_len);
-    auto bytes_read = (size_t)this->stream->gcount();
+    /* the requested length might be bogus, so don't allocate more memory than there is data */
+    const size_t max_chunk = 1 << 20;
+    size_t bytes_read = 0;
+
+    while(bytes_read < read_len) {
+
+        auto chunk = min(read_len - bytes_read, max_chunk);
+        auto bufsz = preserve_sz + bytes_read + chunk;
+
+        if(this->buffer.size() < bufsz) {
+            this->buffer.resize(bufsz);
+        }
+
+        this->stream->read((char*)&this->buffer[preserve_sz + bytes_read], chunk);
+
+        auto count = (size_t)this->stream->gcount();
+        bytes_read += count;
+
+        if(count < chunk) {
+            break;
+        }
+    }
 
     this->pos  = &this->buffer[preserve_sz - left];
     anchor = anchor ? &this->buffer[margin] : nullptr;
-- 
2.43.0


From 5eccbf9db554a8262f8837c10ad3a5a0378a198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 26/39] fix: escape all control characters in JSON strings

---
 src/lib/PJson.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 0badf69..c43b333 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -1,6 +1,7 @@
 #include "Srl/Srl.h"
 #include "Srl/Lib.h"
 
+#include <algorithm>
 #include <array>
 
 using namespace std;
@@ -49,12 +50,34 @@ namespace {
         return array<const char, 2> { { '\\', c } };
     }
 
+    bool is_control_char(uint8_t c)
+    {
+        /* the others have a short escape sequence */
+        return c < 0x20 && c != '\n' && c != '\t' && c != '\r' && c != '\b' && c != '\f';
+    }
+
     void write_escape(const MemBlock& str, Out& out)
     {
-        out.write_substitute(str,
-            '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
-            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
-        );
+        const auto* end = str.ptr + str.size;
+
+        for(const auto* pos = str.ptr; pos != end;) {
+
+            const auto* ctrl = find_if(pos, end, is_control_char);
+
+            out.write_substitute(MemBlock(pos, ctrl - pos),
+                '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
+                '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
+            );
+
+            pos = ctrl;
+
+            if(pos != end) {
+                auto hex = Tools::bytes_to_hex(pos, 1);
+                out.write((const uint8_t*)"\\u00", 4);
+                out.write(hex.data(), hex.size());
+                pos++;
+            }
+        }
     }
 
     MemBlock read_unescape(In& in, vector<uint8_t>& buffer)
-- 
2.43.0


From efba167f1c800c5cf365439f69e9d83b545ac772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 27/39] fix: escape field names in JSON documents

---
 src/lib/PJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index c43b333..5f7a6b8 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -152,7 +152,7 @@ void PJson::write(const Value& value, const MemBlock& name, Out& out)
        this->scope_type != Type::Array &&
        type != Type::Scope_End) {
 
-        insert_in_quotes(out, name);
+        insert_in_quotes(out, name, true);
         out.write(':');
 
         if(!this->compact) {
-- 
2.43.0


From 30d39849161d32babcfd27567067c9fd3dcf133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 28/39] fix: streams: continue at the end of a chunk

After reading a block that ended exactly at the end of the chunk fetched,
the end of the stream was assumed to be reached, although more data followed.
---
 include/Srl/In.h   | 2 +-
 include/Srl/In.hpp | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Srl/In.h b/include/Srl/In.h
index dd3692b..ef20671 100644
--- a/include/Srl/In.h
+++ b/include/Srl/In.h
@@ -49,7 +49,7 @@ namespace Srl { namespace Lib {
         inline void move           (size_t steps, const Error& error);
         inline const uint8_t* peek (size_t steps, const Error& error);
         inline bool     try_peek   (size_t steps);
-        inline bool     at_end     () const;
+        inline bool     at_end     ();
         inline MemBlock read_block (size_t steps, const Error& error);
 
         template<class T>
diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index d2c695d..5ce54fb 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -98,9 +98,12 @@ namespace Srl { namespace Lib {
     }
 
     /* there is no token at the current position */
-    inline bool In::at_end() const
+    inline bool In::at_end()
     {
-        return this->streaming ? this->pos >= this->end : this->pos + 1 >= this->end;
+        /* at the end of the data read so far, there might be more to come */
+        return this->streaming
+            ? this->pos >= this->end && !this->try_fetch_data(1)
+            : this->pos + 1 >= this->end;
     }
 
     inline MemBlock In::read_block(size_t steps, const Error& error)
-- 
2.43.0


From 174164462728be0babb31f414bbc00399b8c0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 29/39] fix: optional fields are looked up by kind while
 restoring directly

---
 include/Srl/Node.h |  2 +-
 src/lib/Node.cpp   | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 3d69ae0..6c07594 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -143,7 +143,7 @@ namespace Srl {
         Node  consume_node  (bool throw_ex, size_t idx);
         Value consume_value (bool throw_ex, size_t idx);
 
-        Union consume_item(const String& name, bool throw_err = true);
+        Union consume_item(const String& name, bool throw_err = true, bool want_nodes = true, bool want_values = true);
 
         template<class T>
         typename std::enable_if<!TpTools::is_scope(Lib::Switch<T>::type), Value>::type
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index ca870eb..8011f4d 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -276,15 +276,15 @@ void Node::read_source(int scope_depth)
     }
 }
 
-Union Node::consume_item(const String& id, bool throw_err)
+Union Node::consume_item(const String& id, bool throw_err, bool want_nodes, bool want_values)
 {
-    auto* storednode = find_link<Name>(id, this->nodes);
+    auto* storednode = want_nodes ? find_link<Name>(id, this->nodes) : nullptr;
 
     if(storednode) {
         return Union(storednode->field);
     }
 
-    auto* storedvalue = find_link<Name>(id, this->values);
+    auto* storedvalue = want_values ? find_link<Name>(id, this->values) : nullptr;
 
     if(storedvalue) {
         return Union(storedvalue->field);
@@ -307,13 +307,13 @@ Union Node::consume_item(const String& id, bool throw_err)
         if(TpTools::is_scope(tp)) {
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
             link->field.read_source();
-            if(link->hash == hash && link->field.name() == id) {
+            if(want_nodes && link->hash == hash && link->field.name() == id) {
                 return Union(link->field);
             }
 
         } else {
             auto* link = this->env->store_value(*this, val, seg_name);
-            if(link->hash == hash && link->field.name() == id) {
+            if(want_values && link->hash == hash && link->field.name() == id) {
                 return Union(link->field);
             }
         }
@@ -667,7 +667,7 @@ bool Node::has_node(const String& field_name)
         return find_link<Name>(field_name, this->nodes, field_name) != nullptr;
     }
 
-    auto unn = this->consume_item(field_name, false);
+    auto unn = this->consume_item(field_name, false, true, false);
 
     return unn.node() != nullptr;
 }
@@ -678,7 +678,7 @@ bool Node::has_value(const String& field_name)
         return find_link<Name>(field_name, this->values, field_name) != nullptr;
     }
 
-    auto unn = this->consume_item(field_name, false);
+    auto unn = this->consume_item(field_name, false, false, true);
 
     return unn.value() != nullptr;
 }
-- 
2.43.0


From 0f8261601469c0fd2c47d86b6d55068a7e95d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 30/39] fix: unpacking into a Union leaves the remaining fields
 accessible

---
 include/Srl/Resolve.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index beb3dab..c13c012 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -267,7 +267,6 @@ namespace Srl { namespace Lib {
                 u = node.get(id);
             } else {
                 u = node.consume_item(id);
-                node.consume_scope();
             }
         }
     };
-- 
2.43.0


From 4c59f4c005fedd6262420fed9544c47989ea0303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 31/39] fix: a failing allocation does not leave memory in use
 and free at the same time

---
 src/lib/Heap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index a069ace..7425e84 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -189,6 +189,8 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
 
     if(this->crr_seg && crr_seg->left > 0) {
         this->put_mem(crr_seg->pointer(), this->crr_seg->left);
+        /* the rest belongs to the free segments from now on, even if the allocation below fails */
+        this->crr_seg = nullptr;
     }
 
     if(chain.free_segs.front && (seg = find_free_seg(n, align))) {
-- 
2.43.0


From b8e5c9c54500d8be919ea84b67e63df81fe78614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 32/39] fix: allocate enough memory for over-aligned types

---
 src/lib/Heap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index 7425e84..abdfc8e 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -197,6 +197,9 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
         return seg;
     }
 
+    /* leave room for alignments that exceed the one of allocated memory */
+    n += align - 1;
+
     this->cap = cap < 1 ? 1 : cap * 2 < Max_Cap ? cap * 2 : Max_Cap;
 
     if(n < Max_Cap && this->cap < n) {
-- 
2.43.0


From 88816bf2576dc8f50d2212f2d95a8763bd3707b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 33/39] fix: base64_to_bytes read beyond the source when the
 destination was larger than needed

---
 src/lib/ToolsBtsConv.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index f455376..6224b8e 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -110,6 +110,12 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
                         " Size of source must be a multiple of 4." );
     }
 
+    /* the destination may be larger than needed */
+    auto decoded_size = get_base64_decoded_size(str, str_len);
+    if(dest_size > decoded_size) {
+        dest_size = decoded_size;
+    }
+
     for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
                out_idx += 3, in_idx += 4) {
 
@@ -138,7 +144,7 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
         }
     }
 
-    return get_base64_decoded_size(str, str_len);
+    return decoded_size;
 }
 
 vector<uint8_t> Tools::bytes_to_hex(const uint8_t* bytes, size_t nbytes)
-- 
2.43.0


From b167fdd9cafb1d9f95bddd6a0effef48fbb190f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 34/39] fix: type ids create objects of classes derived from
 the requested type only

---
 include/Srl/Registration.h | 46 +++++++++++++++++++++++++++++++-------
 src/lib/Registration.cpp   |  6 ++---
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index 86c7a7a..7773edf 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -14,13 +14,22 @@ namespace Srl {
 
         class Registrations {
 
-            typedef std::function<void*(void)> Make;
+            /* what needs to be known about the type behind a class id */
+            struct Class {
+                void* (*make)    (void);
+                void  (*destroy) (void* object);
+                void  (*raise)   (void* object); /* throws a pointer to the object */
+            };
 
         public:
             template<class T>
             void add(const String& id)
             {
-                bool exists = this->insert(id, [] { return Ctor<T>::Create_New().release(); });
+                bool exists = this->insert(id, Class {
+                    [] { return static_cast<void*>(Ctor<T>::Create_New().release()); },
+                    [] (void* object) { delete static_cast<T*>(object); },
+                    [] (void* object) { throw static_cast<T*>(object); }
+                });
 
                 if(exists) {
                     throw Exception("Class id " + id.unwrap(false) + " duplicated.");
@@ -30,21 +39,42 @@ namespace Srl {
             template<class T>
             std::unique_ptr<T> create(const String& id)
             {
-                auto* make = this->find(id);
+                auto* cls = this->find(id);
 
-                if(!make) {
+                if(!cls) {
                     throw Exception("Class id " + id.unwrap(false) + " not registered.");
                 }
 
-                auto* ptr = (T*)((*make)());
+                auto* object = cls->make();
+                auto* ptr    = this->cast<T>(*cls, object);
+
+                if(!ptr) {
+                    cls->destroy(object);
+                    throw Exception("Class id " + id.unwrap(false) + " not derived from the requested type.");
+                }
+
                 return std::unique_ptr<T>(ptr);
             }
 
         private:
-            HTable<String, Make> table { 16 };
+            HTable<String, Class> table { 16 };
+
+            bool   insert (const String& id, const Class& cls);
+            Class* find   (const String& id);
 
-            bool  insert (const String& id, Make&& make);
-            Make* find   (const String& id);
+            /* the class isn't known here. Let the compiler check whether it is T or derived
+             * from T, and adjust the pointer if necessary */
+            template<class T>
+            T* cast(const Class& cls, void* object)
+            {
+                try {
+                    cls.raise(object);
+                } catch(T* ptr) {
+                    return ptr;
+                } catch(...) { }
+
+                return nullptr;
+            }
         };
 
         Registrations* registrations();
diff --git a/src/lib/Registration.cpp b/src/lib/Registration.cpp
index d23a5f6..c825322 100644
--- a/src/lib/Registration.cpp
+++ b/src/lib/Registration.cpp
@@ -12,15 +12,15 @@ Registrations* Lib::registrations()
     return &regs;
 }
 
-bool Registrations::insert(const String& id, Registrations::Make&& make)
+bool Registrations::insert(const String& id, const Class& cls)
 {
     bool exists; void* v;
-    tie(exists, v) = this->table.insert(id, make);
+    tie(exists, v) = this->table.insert(id, cls);
 
     return exists;
 }
 
-Registrations::Make* Registrations::find (const String& id)
+Registrations::Class* Registrations::find (const String& id)
 {
     return this->table.get(id);
 }
-- 
2.43.0


From 453a679b9790c83b86e9208480972c56839bf6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 35/39] fix: restoring shared objects repeatedly neither shares
 them with earlier results nor mixes up their types

---
 include/Srl/Environment.h  |  5 ++--
 include/Srl/Node.h         |  3 ++-
 include/Srl/Registration.h | 55 +++++++++++++++++++++++++++++++++++---
 include/Srl/Resolve.hpp    | 39 +++++++++++++++++++++------
 src/lib/Node.cpp           | 16 +++++------
 5 files changed, 94 insertions(+), 24 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 5163c0c..8ebeed8 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -4,6 +4,7 @@
 #include "Value.h"
 #include "String.h"
 #include "Hash.h"
+#include "Registration.h"
 #include "Parser.h"
 #include "In.h"
 #include "Out.h"
@@ -48,8 +49,8 @@ namespace Lib {
         Heap                   heap;
         HTable<String, String> str_table;
 
-        HTable<const void*, size_t>           shared_table_store   { 16 };
-        HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
+        HTable<const void*, size_t> shared_table_store   { 16 };
+        HTable<size_t, SharedItem>  shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
         std::vector<uint8_t>  type_buffer;
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 6c07594..f288820 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -127,7 +127,8 @@ namespace Srl {
                          Type node_type, const String& name, const Args&... args);
 
         std::pair<bool, uint64_t> insert_shared (const void* obj);
-        std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
+        Lib::SharedItem* find_shared (uint64_t key);
+        void             set_shared  (uint64_t key, const Lib::SharedItem& item);
 
         Node& insert_node  (const Node& node, const String& name);
         Node& insert_node  (Type type, const String& name);
diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index 7773edf..ed3ba5a 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -6,6 +6,8 @@
 #include "Exception.h"
 #include "Resolve.h"
 
+#include <typeinfo>
+
 namespace Srl {
 
     struct TypeID { virtual const char* name() const = 0; };
@@ -19,8 +21,11 @@ namespace Srl {
                 void* (*make)    (void);
                 void  (*destroy) (void* object);
                 void  (*raise)   (void* object); /* throws a pointer to the object */
+                const std::type_info* type;
             };
 
+            friend struct SharedItem;
+
         public:
             template<class T>
             void add(const String& id)
@@ -28,7 +33,8 @@ namespace Srl {
                 bool exists = this->insert(id, Class {
                     [] { return static_cast<void*>(Ctor<T>::Create_New().release()); },
                     [] (void* object) { delete static_cast<T*>(object); },
-                    [] (void* object) { throw static_cast<T*>(object); }
+                    [] (void* object) { throw static_cast<T*>(object); },
+                    &typeid(T)
                 });
 
                 if(exists) {
@@ -46,7 +52,7 @@ namespace Srl {
                 }
 
                 auto* object = cls->make();
-                auto* ptr    = this->cast<T>(*cls, object);
+                auto* ptr    = cast<T>(*cls, object);
 
                 if(!ptr) {
                     cls->destroy(object);
@@ -65,7 +71,7 @@ namespace Srl {
             /* the class isn't known here. Let the compiler check whether it is T or derived
              * from T, and adjust the pointer if necessary */
             template<class T>
-            T* cast(const Class& cls, void* object)
+            static T* cast(const Class& cls, void* object)
             {
                 try {
                     cls.raise(object);
@@ -79,6 +85,49 @@ namespace Srl {
 
         Registrations* registrations();
 
+        /* restored object behind a shared_ptr, other references may refer to it */
+        struct SharedItem {
+
+            std::shared_ptr<void> ptr;
+            const std::type_info* type; /* what ptr points to */
+
+            void* object = nullptr;     /* the complete object, if its class is registered */
+            const Registrations::Class* cls = nullptr;
+
+            template<class T>
+            SharedItem(const std::shared_ptr<T>& ptr_) : ptr(ptr_), type(&typeid(T*))
+            {
+                if constexpr(is_polymorphic<T*>::value && std::is_polymorphic<T>::value) {
+
+                    auto* found = registrations()->find(ptr_->srl_type_id().name());
+
+                    if(found && *found->type == typeid(*ptr_)) {
+                        this->object = dynamic_cast<void*>(ptr_.get());
+                        this->cls    = found;
+                    }
+                }
+            }
+
+            /* empty if the object is not a T */
+            template<class T>
+            std::shared_ptr<T> get() const
+            {
+                if(*this->type == typeid(T*)) {
+                    return std::static_pointer_cast<T>(this->ptr);
+                }
+
+                if constexpr(is_polymorphic<T*>::value) {
+                    if(this->cls) {
+                        return std::shared_ptr<T>(
+                            this->ptr, Registrations::cast<T>(*this->cls, this->object)
+                        );
+                    }
+                }
+
+                return { };
+            }
+        };
+
         template<class T>
         class TypeRegistration : public TypeID {
 
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index c13c012..a572be6 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -783,21 +783,44 @@ namespace Srl { namespace Lib {
         }
 
         template<class ID = String>
-        static void Paste(T& p, Node& node, const ID& = Aux::str_empty)
+        static void Paste(T& p, Node& node, const ID& id = Aux::str_empty)
         {
+            /* a document held may be restored repeatedly, each time its objects are created anew */
+            bool renew = node.parsed && Has_Object<E>(node);
+
             uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
-            bool inserted_new; std::shared_ptr<void>* sptr;
+            auto* item   = renew ? nullptr : node.find_shared(key);
 
-            std::tie(inserted_new, sptr) = node.find_shared(key, [&p, &node] {
+            if(!item) {
                 E* e = nullptr;
                 Apply(e, node);
-                p = std::shared_ptr<E>(e);
-                return p;
-            });
 
-            if(!inserted_new) {
-                p = std::static_pointer_cast<E>(*sptr);
+                std::shared_ptr<E> sptr(e);
+                node.set_shared(key, sptr);
+
+                p = sptr;
+                return;
+            }
+
+            auto sptr = item->template get<E>();
+            if(!sptr) {
+                Aux::throw_error("Shared object is of another type.", id);
             }
+            p = sptr;
+        }
+
+        template<class C>
+        static typename std::enable_if<is_polymorphic<C*>::value || TpTools::is_scope(Switch<C>::type), bool>::type
+        Has_Object(Node& node)
+        {
+            return node.has_node(Aux::str_shared_value);
+        }
+
+        template<class C>
+        static typename std::enable_if<!is_polymorphic<C*>::value && !TpTools::is_scope(Switch<C>::type), bool>::type
+        Has_Object(Node& node)
+        {
+            return node.has_value(Aux::str_shared_value);
         }
 
         template<class C>
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 8011f4d..b066d7d 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -544,18 +544,14 @@ pair<bool, uint64_t> Node::insert_shared (const void* obj)
     return { exists, *key };
 }
 
-pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
+SharedItem* Node::find_shared (uint64_t key)
 {
-    auto& table = this->env->shared_table_restore;
-    auto* sptr = table.get(key);
-    bool inserted_new = false;
-
-    if(!sptr) {
-        sptr = table.insert(key, create()).second;
-        inserted_new = true;
-    }
+    return this->env->shared_table_restore.get(key);
+}
 
-    return { inserted_new, sptr };
+void Node::set_shared (uint64_t key, const SharedItem& item)
+{
+    this->env->shared_table_restore.upsert(key, item);
 }
 
 void Node::foreach_node(const function<void(Node&)>& fnc, bool recursive)
-- 
2.43.0


From 8b6a3f67ee65173fa3d5c84e7b1a56609017f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 36/39] fix: restore weak references to objects which are being
 restored

---
 include/Srl/Node.h      |  1 -
 include/Srl/Resolve.hpp | 87 ++++++++++++++++++++++++++++++-----------
 src/lib/Node.cpp        |  5 ---
 3 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index f288820..457811f 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -128,7 +128,6 @@ namespace Srl {
 
         std::pair<bool, uint64_t> insert_shared (const void* obj);
         Lib::SharedItem* find_shared (uint64_t key);
-        void             set_shared  (uint64_t key, const Lib::SharedItem& item);
 
         Node& insert_node  (const Node& node, const String& name);
         Node& insert_node  (Type type, const String& name);
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index a572be6..40e9006 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -46,6 +46,8 @@ namespace Srl { namespace Lib {
         template<class TChar, class ID>
         void copy_string(TChar* dst, size_t size, const Value& value, const ID& id);
 
+        template<class E> struct SharedObject;
+
         template<class T, class ID>
         typename std::enable_if<is_polymorphic<T*>::value, void>::type
         ptr_insert(T* const p, Node& node, const ID& id);
@@ -446,15 +448,10 @@ namespace Srl { namespace Lib {
         template<class ID = String>
         static void Paste(T& o, Node& node, const ID& id = Aux::str_empty)
         {
-            typedef typename std::remove_pointer<T>::type U;
-
             Aux::check_type_scope(node.type(), id);
 
             Context ctx(node, Mode::Paste);
-            std::string type_id;
-            ctx(Aux::str_type_id, type_id);
-
-            auto uptr = Lib::registrations()->create<U>(type_id);
+            auto uptr = Create(ctx);
             uptr->srl_resolve(ctx);
 
             if(o != nullptr) {
@@ -462,6 +459,14 @@ namespace Srl { namespace Lib {
             }
             o = uptr.release();
         }
+
+        static std::unique_ptr<typename std::remove_pointer<T>::type> Create(Context& ctx)
+        {
+            std::string type_id;
+            ctx(Aux::str_type_id, type_id);
+
+            return Lib::registrations()->create<typename std::remove_pointer<T>::type>(type_id);
+        }
     };
 
     /* stl-like container types */
@@ -792,13 +797,10 @@ namespace Srl { namespace Lib {
             auto* item   = renew ? nullptr : node.find_shared(key);
 
             if(!item) {
-                E* e = nullptr;
-                Apply(e, node);
+                Aux::SharedObject<E> object { node.env->shared_table_restore, key };
+                node.paste_field(Aux::str_shared_value, object);
 
-                std::shared_ptr<E> sptr(e);
-                node.set_shared(key, sptr);
-
-                p = sptr;
+                p = object.finish();
                 return;
             }
 
@@ -806,6 +808,7 @@ namespace Srl { namespace Lib {
             if(!sptr) {
                 Aux::throw_error("Shared object is of another type.", id);
             }
+
             p = sptr;
         }
 
@@ -822,21 +825,61 @@ namespace Srl { namespace Lib {
         {
             return node.has_value(Aux::str_shared_value);
         }
+    };
 
-        template<class C>
-        static typename std::enable_if<is_polymorphic<C*>::value, void>::type
-        Apply(C*& p, Node& node)
+    /* the object a shared_ptr refers to. References to it may be among its own fields */
+    template<class E> struct Aux::SharedObject {
+
+        HTable<size_t, SharedItem>& table;
+        size_t                      key;
+        std::shared_ptr<E>          ptr = nullptr;
+        bool                        pending = false;
+
+        void start(std::unique_ptr<E>&& object)
         {
-            node.paste_field(Aux::str_shared_value, p);
+            this->ptr     = std::move(object);
+            this->pending = true;
+            this->table.upsert(this->key, SharedItem(this->ptr));
         }
 
-        template<class C>
-        static typename std::enable_if<!is_polymorphic<C*>::value, void>::type
-        Apply(C*& p, Node& node)
+        std::shared_ptr<E> finish()
         {
-            auto uptr = Ctor<C>::Create_New();
-            node.paste_field(Aux::str_shared_value, *uptr.get());
-            p = uptr.release();
+            this->pending = false;
+            return this->ptr;
+        }
+
+        ~SharedObject()
+        {
+            if(this->pending) {
+                this->table.remove(this->key);
+            }
+        }
+    };
+
+    template<class E>
+    struct Switch<Aux::SharedObject<E>, typename std::enable_if<!is_polymorphic<E*>::value>::type> {
+        static const Type type = Switch<E>::type;
+
+        template<class Item, class ID = String>
+        static void Paste(Aux::SharedObject<E>& o, Item& item, const ID& id = Aux::str_empty)
+        {
+            o.start(Ctor<E>::Create_New());
+            Switch<E>::Paste(*o.ptr, item, id);
+        }
+    };
+
+    template<class E>
+    struct Switch<Aux::SharedObject<E>, typename std::enable_if<is_polymorphic<E*>::value>::type> {
+        static const Type type = Switch<E*>::type;
+
+        template<class ID = String>
+        static void Paste(Aux::SharedObject<E>& o, Node& node, const ID& id = Aux::str_empty)
+        {
+            Aux::check_type_scope(node.type(), id);
+
+            Context ctx(node, Mode::Paste);
+            o.start(Switch<E*>::Create(ctx));
+            o.ptr->srl_resolve(ctx);
         }
     };
 
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index b066d7d..0a1dc47 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -549,11 +549,6 @@ SharedItem* Node::find_shared (uint64_t key)
     return this->env->shared_table_restore.get(key);
 }
 
-void Node::set_shared (uint64_t key, const SharedItem& item)
-{
-    this->env->shared_table_restore.upsert(key, item);
-}
-
 void Node::foreach_node(const function<void(Node&)>& fnc, bool recursive)
 {
     for(auto& link : this->nodes) {
-- 
2.43.0


From 68bc1dcea8a875fadf70a0a368cfcd8258f32095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 37/39] fix: shared objects are identified by address and type,
 and are alive as long as their keys are in use

---
 include/Srl/Environment.h  | 14 ++++++--------
 include/Srl/Node.h         |  2 +-
 include/Srl/Registration.h | 30 ++++++++++++++++++++++++++++++
 include/Srl/Resolve.hpp    |  2 +-
 src/lib/Node.cpp           |  8 ++++----
 5 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 8ebeed8..8118006 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -30,12 +30,10 @@ namespace Lib {
     using Items = std::list<Lib::Link<T>, Lib::HeapAllocator<Lib::Link<T>>>;
 
 
-    template<> struct HashSrl<const void*> {
-        size_t operator()(const void* v) const
-        {
-            uint64_t addr = (uint64_t)v;
-            return HashSrl<uint64_t>()(addr);
-        }
+    /* a stored object is kept alive. Its address must not be used again as long as its key is in use */
+    struct SharedKey {
+        size_t                      key;
+        std::shared_ptr<const void> object;
     };
 
     struct Environment {
@@ -49,8 +47,8 @@ namespace Lib {
         Heap                   heap;
         HTable<String, String> str_table;
 
-        HTable<const void*, size_t> shared_table_store   { 16 };
-        HTable<size_t, SharedItem>  shared_table_restore { 16 };
+        HTable<SharedRef, SharedKey> shared_table_store   { 16 };
+        HTable<size_t, SharedItem>   shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
         std::vector<uint8_t>  type_buffer;
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 457811f..a0fdbe4 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -126,7 +126,7 @@ namespace Srl {
         void open_scope (void (*Insert)(Node& node, const Args&... args),
                          Type node_type, const String& name, const Args&... args);
 
-        std::pair<bool, uint64_t> insert_shared (const void* obj);
+        std::pair<bool, uint64_t> insert_shared (const Lib::SharedRef& ref, const std::shared_ptr<const void>& obj);
         Lib::SharedItem* find_shared (uint64_t key);
 
         Node& insert_node  (const Node& node, const String& name);
diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index ed3ba5a..955f5b1 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -7,6 +7,7 @@
 #include "Resolve.h"
 
 #include <typeinfo>
+#include <typeindex>
 
 namespace Srl {
 
@@ -85,6 +86,35 @@ namespace Srl {
 
         Registrations* registrations();
 
+        /* identifies a stored object. Objects of different types may have the same address
+         * (e.g. an object and its first member) */
+        struct SharedRef {
+
+            const void*     object;
+            std::type_index type;
+
+            template<class T>
+            SharedRef(const T* ptr) : object(ptr), type(typeid(T*))
+            {
+                if constexpr(is_polymorphic<T*>::value && std::is_polymorphic<T>::value) {
+                    this->object = dynamic_cast<const void*>(ptr);
+                    this->type   = typeid(*ptr);
+                }
+            }
+
+            bool operator== (const SharedRef& o) const
+            {
+                return this->object == o.object && this->type == o.type;
+            }
+        };
+
+        template<> struct HashSrl<SharedRef> {
+            size_t operator()(const SharedRef& ref) const
+            {
+                return HashSrl<uint64_t>()((uint64_t)ref.object);
+            }
+        };
+
         /* restored object behind a shared_ptr, other references may refer to it */
         struct SharedItem {
 
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 40e9006..246f7e9 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -775,7 +775,7 @@ namespace Srl { namespace Lib {
                 Switch<std::nullptr_t>::Insert(nullptr, node, name);
                 return;
             }
-            auto key = node.insert_shared(p.get());
+            auto key = node.insert_shared(SharedRef(p.get()), p);
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 0a1dc47..f9aec25 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -534,14 +534,14 @@ void Node::consume_scope()
     }
 }
 
-pair<bool, uint64_t> Node::insert_shared (const void* obj)
+pair<bool, uint64_t> Node::insert_shared (const SharedRef& ref, const shared_ptr<const void>& obj)
 {
-    bool exists; size_t* key;
+    bool exists; SharedKey* entry;
     auto& table = this->env->shared_table_store;
 
-    tie(exists, key) = table.insert(obj, table.num_entries());
+    tie(exists, entry) = table.insert(ref, SharedKey { table.num_entries(), obj });
 
-    return { exists, *key };
+    return { exists, entry->key };
 }
 
 SharedItem* Node::find_shared (uint64_t key)
-- 
2.43.0


From 62fcef7654098fce67152f6532708d43c5104ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 38/39] fix: binary data read from the Srl format was taken for
 UTF-8 text

---
 src/lib/PSrl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 9f9cbde..c06072b 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -256,9 +256,12 @@ pair<Lib::MemBlock, Value> PSrl::read(In& source)
     if(flag & (FBinary | FString)) {
         auto size  = decode_integer(source);
         auto block = source.read_block(size, error);
-        auto type = flag & FBinary ? Type::Binary : Type::String;
 
-        return { name, Value(block, type, Encoding::UTF8) };
+        if(flag & FBinary) {
+            return { name, Value(block, Type::Binary) };
+        }
+
+        return { name, Value(block, Type::String, Encoding::UTF8) };
     }
 
     if(flag & FNull) {
-- 
2.43.0


From 37c5208fa6e242137f9f8d09a49afaa1b2b3789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 39/39] fix: an initializer list inserted while storing was
 written outside of its scope

---
 include/Srl/Node.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 9dbe0a0..3474353 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -26,10 +26,13 @@ namespace Srl {
     template<class T>
     Node& Node::insert(const String& field_name, const std::initializer_list<T>& elements)
     {
-        auto& new_node = this->insert_node(Type::Array, field_name);
-        for(auto& e : elements) {
-           new_node.insert(e);
-        }
+        const auto insert_elements = +[](Node& node, const std::initializer_list<T>& elems) {
+            for(auto& e : elems) {
+                node.insert(e);
+            }
+        };
+
+        this->open_scope(insert_elements, Type::Array, field_name, elements);
         return *this;
     }
 
-- 
2.43.0

