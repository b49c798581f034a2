From 112a6f10e2c76479037cdb4fc32f1201059d3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:50 +0000
Subject: [PATCH 01/35] fix: zera header checks must not wrap (env_size near
 2^32, env_size < 16)

---
 include/zerialize/protocols/zera.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b474e42..3c2e5ca 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -498,8 +498,8 @@ class ZeraDeserializer final : public ZeraViewBase {
         require(h.root_ofs < h.env_size, "zera: root_ofs out of bounds");
         require(h.arena_ofs <= buf.size(), "zera: arena_ofs out of bounds");
         require((h.arena_ofs % ArenaBaseAlign) == 0, "zera: arena_ofs not aligned");
-        require(h.arena_ofs >= HeaderSize + h.env_size, "zera: arena_ofs overlaps envelope");
-        require(HeaderSize + h.env_size <= h.arena_ofs, "zera: envelope exceeds arena_ofs");
+        require(h.arena_ofs >= HeaderSize + std::size_t(h.env_size), "zera: arena_ofs overlaps envelope");
+        require(HeaderSize + std::size_t(h.env_size) <= h.arena_ofs, "zera: envelope exceeds arena_ofs");
 
         buf_ = buf.data();
         buf_len_ = buf.size();
@@ -508,7 +508,7 @@ class ZeraDeserializer final : public ZeraViewBase {
         arena_ = buf_ + h.arena_ofs;
         arena_len_ = buf.size() - h.arena_ofs;
 
-        require(h.root_ofs <= env_size_ - 16, "zera: root ValueRef out of bounds");
+        require(env_size_ >= 16 && h.root_ofs <= env_size_ - 16, "zera: root ValueRef out of bounds");
         vr_ = env_ + h.root_ofs;
     }
 
-- 
2.43.0


From a6cbe971f57f7670374300c9734602a0c922e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:50 +0000
Subject: [PATCH 02/35] fix: zera envelope offsets must not be truncated to 32
 bits before the bounds check

---
 include/zerialize/protocols/zera.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 3c2e5ca..c759425 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,7 +195,7 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
-    const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
+    const std::uint8_t* env_ptr_at(std::size_t ofs, std::size_t need) const {
         require(ofs <= env_size_, "zera: envelope offset out of bounds");
         require(need <= env_size_, "zera: envelope need out of bounds");
         require(std::size_t(ofs) + need <= env_size_, "zera: envelope span out of bounds");
@@ -396,7 +396,7 @@ public:
         const std::uint32_t obj_ofs = a();
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
-        const auto* entries = env_ptr_at(obj_ofs + 4, 0);
+        const auto* entries = env_ptr_at(std::size_t(obj_ofs) + 4, 0);
         return KeysView{this, entries, count};
     }
 
@@ -406,16 +406,16 @@ public:
         const std::uint32_t obj_ofs = a();
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
-        std::size_t ofs = obj_ofs + 4;
+        std::size_t ofs = std::size_t(obj_ofs) + 4;
         for (std::uint32_t i = 0; i < count; ++i) {
-            const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+            const auto* e = env_ptr_at(ofs, 4);
             const std::uint16_t key_len = read_u16_le(e);
             (void)read_u16_le(e + 2); // reserved
-            const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
+            const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
             if (key_len == key.size() &&
                 std::memcmp(key_bytes, key.data(), key.size()) == 0) return true;
             ofs += 4 + std::size_t(key_len) + 16;
-            (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+            (void)env_ptr_at(ofs, 0);
         }
         return false;
     }
@@ -458,7 +458,7 @@ inline ZeraValue ZeraViewBase::operator[](std::size_t idx) const {
     const std::uint32_t count = read_u32_le(p);
     require(idx < count, "zera: array index out of bounds");
     const std::size_t elem_ofs = std::size_t(arr_ofs) + 4 + 16 * idx;
-    const auto* vr = env_ptr_at(static_cast<std::uint32_t>(elem_ofs), 16);
+    const auto* vr = env_ptr_at(elem_ofs, 16);
     return ZeraValue(*this, vr);
 }
 
@@ -468,18 +468,18 @@ inline ZeraValue ZeraViewBase::operator[](std::string_view key) const {
     const std::uint32_t obj_ofs = a();
     const auto* p = env_ptr_at(obj_ofs, 4);
     const std::uint32_t count = read_u32_le(p);
-    std::size_t ofs = obj_ofs + 4;
+    std::size_t ofs = std::size_t(obj_ofs) + 4;
     for (std::uint32_t i = 0; i < count; ++i) {
-        const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+        const auto* e = env_ptr_at(ofs, 4);
         const std::uint16_t key_len = read_u16_le(e);
         (void)read_u16_le(e + 2); // reserved
-        const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
-        const auto* value_vr = env_ptr_at(static_cast<std::uint32_t>(ofs + 4 + key_len), 16);
+        const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
+        const auto* value_vr = env_ptr_at(ofs + 4 + key_len, 16);
         if (key_len == key.size() && std::memcmp(key_bytes, key.data(), key.size()) == 0) {
             return ZeraValue(*this, value_vr);
         }
         ofs += 4 + std::size_t(key_len) + 16;
-        (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+        (void)env_ptr_at(ofs, 0);
     }
     throw DeserializationError("zera: key not found: " + std::string(key));
 }
-- 
2.43.0


From 1aff0d57c8b3d4346bffa6de9ba42edf0941c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:50 +0000
Subject: [PATCH 03/35] fix: zera KeysView must bounds-check an entry before
 reading its key length

---
 include/zerialize/protocols/zera.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index c759425..bd0afaf 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -365,17 +365,18 @@ public:
 
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
-                const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
+                const std::size_t cur_ofs = static_cast<std::size_t>(cur - self->env_);
+                const auto key_len = read_u16_le(self->env_ptr_at(cur_ofs, 4));
+                (void)self->env_ptr_at(cur_ofs, 4 + std::size_t(key_len) + 16);
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
-                const auto key_len = read_u16_le(cur);
+                const std::size_t cur_ofs = static_cast<std::size_t>(cur - self->env_);
+                const auto key_len = read_u16_le(self->env_ptr_at(cur_ofs, 4));
                 const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                const auto cur_ofs = std::uint32_t(cur - self->env_);
-                cur = self->env_ptr_at(cur_ofs + std::uint32_t(adv), 0);
+                cur = self->env_ptr_at(cur_ofs + adv, 0);
                 ++i;
                 return *this;
             }
-- 
2.43.0


From e92f6e942527061e4bac51067db393522467835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 04/35] fix: mp_skip must not report a size beyond the end of
 its input

---
 include/zerialize/protocols/msgpack.hpp | 28 +++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9127f04..c4cb098 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -34,6 +34,12 @@ inline uint64_t mp_read_be64(const uint8_t* p) {
 // Forward decl
 inline size_t mp_skip(std::span<const uint8_t>);
 
+// `n` bytes must be available at the start of `v`.
+inline size_t mp_need(std::span<const uint8_t> v, size_t n) {
+    if (n > v.size()) throw DeserializationError("msgpack: truncated value");
+    return n;
+}
+
 // ===== minimal element skipper (for iterators / indexing) ====================
 inline size_t mp_skip(std::span<const uint8_t> v) {
     if (v.empty()) throw DeserializationError("msgpack: empty in skip");
@@ -43,7 +49,7 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
     if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) return 1;
 
     // fixstr
-    if ((m & 0xe0) == 0xa0) return 1 + (m & 0x1f);
+    if ((m & 0xe0) == 0xa0) return mp_need(v, 1 + (m & 0x1f));
     // fixarray
     if ((m & 0xf0) == 0x90) {
         size_t n = m & 0x0f, off = 1;
@@ -62,20 +68,20 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
 
     switch (m) {
         // ints / floats
-        case 0xcc: case 0xd0: return 2;
-        case 0xcd: case 0xd1: return 3;
-        case 0xce: case 0xd2: case 0xca: return 5;
-        case 0xcf: case 0xd3: case 0xcb: return 9;
+        case 0xcc: case 0xd0: return mp_need(v, 2);
+        case 0xcd: case 0xd1: return mp_need(v, 3);
+        case 0xce: case 0xd2: case 0xca: return mp_need(v, 5);
+        case 0xcf: case 0xd3: case 0xcb: return mp_need(v, 9);
 
         // str
-        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return 2 + v[1]; }
-        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + mp_read_be32(v.data()+1); }
+        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return mp_need(v, 2 + size_t(v[1])); }
+        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return mp_need(v, 3 + size_t(mp_read_be16(v.data()+1))); }
+        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return mp_need(v, 5 + size_t(mp_read_be32(v.data()+1))); }
 
         // bin
-        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return 2 + v[1]; }
-        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + mp_read_be32(v.data()+1); }
+        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return mp_need(v, 2 + size_t(v[1])); }
+        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return mp_need(v, 3 + size_t(mp_read_be16(v.data()+1))); }
+        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return mp_need(v, 5 + size_t(mp_read_be32(v.data()+1))); }
 
         // arrays
         case 0xdc: {
-- 
2.43.0


From f6364afeb9d1eac9f0c9abccf31d04aef9afd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 05/35] fix: msgpack headers and payloads must lie inside the
 view before they are read

---
 include/zerialize/protocols/msgpack.hpp | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index c4cb098..f53f4da 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -120,32 +120,36 @@ class MsgPackDeserializer {
 
     // helpers: decode headers
     static void str_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; return; }
-        if (m == 0xd9) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xda) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xdb) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); mp_need(v, 1 + len); p = v.data()+1; return; }
+        if (m == 0xd9) { mp_need(v, 2); len = v[1]; mp_need(v, 2 + len); p=v.data()+2; return; }
+        if (m == 0xda) { mp_need(v, 3); len = mp_read_be16(v.data()+1); mp_need(v, 3 + len); p=v.data()+3; return; }
+        if (m == 0xdb) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a string");
     }
     static void bin_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
-        if (m == 0xc4) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xc5) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xc6) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if (m == 0xc4) { mp_need(v, 2); len = v[1]; mp_need(v, 2 + len); p=v.data()+2; return; }
+        if (m == 0xc5) { mp_need(v, 3); len = mp_read_be16(v.data()+1); mp_need(v, 3 + len); p=v.data()+3; return; }
+        if (m == 0xc6) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a bin");
     }
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xdc) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdd) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not an array");
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xde) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdf) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not a map");
     }
 
-- 
2.43.0


From 0a88dde8a1a317b8a69002c9e02ba5646241f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 06/35] fix: msgpack integer accessors must reject values
 outside the requested type

---
 include/zerialize/protocols/msgpack.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index f53f4da..4b4c090 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -10,6 +10,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #include <msgpack.h> // for the writer
@@ -312,7 +313,7 @@ public:
         if (m==0xcc){ if(view_.size()<2) throw DeserializationError("u8");  return uint8_t(view_[1]); }
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return uint16_t(mp_read_be16(view_.data()+1)); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return uint32_t(mp_read_be32(view_.data()+1)); }
-        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return uint64_t(mp_read_be64(view_.data()+1)); }
+        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); uint64_t u=mp_read_be64(view_.data()+1); if (u > uint64_t(std::numeric_limits<std::int64_t>::max())) throw DeserializationError("int64 out of range"); return int64_t(u); }
         throw DeserializationError("not int");
     }
     
@@ -349,7 +350,9 @@ public:
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return mp_read_be32(view_.data()+1); }
         if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return mp_read_be64(view_.data()+1); }
         // fall back for signed fix/neg
-        return uint64_t(asInt64());
+        const std::int64_t i = asInt64();
+        if (i < 0) throw DeserializationError("uint64 out of range");
+        return uint64_t(i);
     }
     
     float asFloat() const {
-- 
2.43.0


From cb6a849c384fb9038969d0fa63dd43b325bb91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 07/35] fix: MsgPackRootSerializer must not be copyable (double
 free)

---
 include/zerialize/protocols/msgpack.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 4b4c090..b5623ba 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -517,6 +517,9 @@ public:
         msgpack_packer_init(&pk, &sbuf, msgpack_sbuffer_write);
     }
     ~MsgPackRootSerializer() { msgpack_sbuffer_destroy(&sbuf); }
+    // owns sbuf and pk points into *this: copying would free the buffer twice
+    MsgPackRootSerializer(const MsgPackRootSerializer&) = delete;
+    MsgPackRootSerializer& operator=(const MsgPackRootSerializer&) = delete;
 
     ZBuffer finish() {
         if (sbuf.size == 0) return ZBuffer();
-- 
2.43.0


From 14f24086765d95cbefe2d817a731781987021bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:07 +0000
Subject: [PATCH 08/35] fix: builders keep the temporaries they are given
 instead of dangling references

---
 include/zerialize/zbuilders.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/zbuilders.hpp b/include/zerialize/zbuilders.hpp
index 8c64d33..82f3298 100644
--- a/include/zerialize/zbuilders.hpp
+++ b/include/zerialize/zbuilders.hpp
@@ -56,7 +56,7 @@ template<typename... Ts>
 constexpr auto zvec(Ts&&... xs)
 {
     // Capture by value with perfect forwarding into a tuple.
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         w.begin_array(sizeof...(Ts));
@@ -91,7 +91,7 @@ constexpr auto zmap(Ts&&... xs)
     static_assert(sizeof...(Keys) == sizeof...(Ts),
                   "zmap: number of keys must match number of values");
 
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         constexpr std::size_t N = sizeof...(Keys);
-- 
2.43.0


From 3231cc85e521d460a7d3f9d2c58446cffed40f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:50 +0000
Subject: [PATCH 09/35] fix: ZBuffer must throw, not terminate, when it is
 given an empty deleter

---
 include/zerialize/zbuffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 103cc40..6fe6ee7 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -115,14 +115,16 @@ public:
     // Constructor taking ownership of a raw uint8_t* pointer with a custom deleter.
     // The deleter MUST correctly free the provided pointer.
     ZBuffer(uint8_t* data_to_own, size_t size, std::function<void(uint8_t*)> deleter)
-        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, std::move(deleter))
     {
         if (size > 0 && data_to_own == nullptr) {
             throw std::invalid_argument("ZBuffer: Non-zero size requires a non-null pointer");
         }
-        if (!std::get<ManagedPtr>(storage_).ptr.get_deleter()) { // Check if deleter is valid (!= nullptr)
+        if (!deleter) { // Check if deleter is valid (!= nullptr)
             throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
         }
+        // Own the pointer only once the arguments are known to be valid: destroying
+        // a ManagedPtr with an empty deleter would terminate.
+        storage_.emplace<ManagedPtr>(data_to_own, size, std::move(deleter));
     }
 
     // Constructor taking ownership of a raw char* pointer with a custom deleter.
-- 
2.43.0


From cfe937c6af8135817e514d1872be2a5a2897cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:53 +0000
Subject: [PATCH 10/35] fix: ZBuffer's char* and void* constructors must reject
 an empty deleter

---
 include/zerialize/zbuffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 6fe6ee7..4722901 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -134,6 +134,8 @@ public:
         : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size,
             // Create a lambda that captures the original char* deleter
             // and performs the cast back before calling it.
+            // An empty deleter stays empty, so that it is rejected.
+            !char_deleter ? std::function<void(uint8_t*)>() :
             [cd = std::move(char_deleter)](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) { // Avoid casting/deleting null
                     cd(reinterpret_cast<char*>(ptr_to_delete));
@@ -145,6 +147,7 @@ public:
     // Useful for C APIs returning void* (like from malloc).
     ZBuffer(void* data_to_own, size_t size, std::function<void(void*)> void_deleter)
         : ZBuffer(static_cast<uint8_t*>(data_to_own), size,
+            !void_deleter ? std::function<void(uint8_t*)>() :
             [vd = std::move(void_deleter)](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) {
                     vd(static_cast<void*>(ptr_to_delete)); // Cast back to void* for deleter
-- 
2.43.0


From 86922a8d9829c0d311211dab2943dbab182b6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 11/35] fix: a moved-from ZBuffer must be empty, not a null
 pointer with a length

---
 include/zerialize/zbuffer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 4722901..7fe37db 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -8,6 +8,7 @@
 #include <span>
 #include <variant>
 #include <functional>
+#include <utility>
 
 namespace zerialize {
 
@@ -95,6 +96,15 @@ private:
 
         // Default constructor needed for variant default construction (if needed)
         ManagedPtr() = default;
+
+        // A moved-from ManagedPtr has no pointer, so it must not keep the length.
+        ManagedPtr(ManagedPtr&& other) noexcept
+            : ptr(std::move(other.ptr)), count(std::exchange(other.count, 0)) {}
+        ManagedPtr& operator=(ManagedPtr&& other) noexcept {
+            ptr = std::move(other.ptr);
+            count = std::exchange(other.count, 0);
+            return *this;
+        }
     };
 
     // --- Variant holding the active storage strategy ---
-- 
2.43.0


From 1fa13337c14bfe953e56fcb675b8c605814412ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:39 +0000
Subject: [PATCH 12/35] fix: MsgPack writer rejects lengths that do not fit the
 format's 32-bit counts

---
 include/zerialize/protocols/msgpack.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index b5623ba..d2a4a16 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -533,6 +533,12 @@ public:
 
 class MsgPackSerializer {
     msgpack_packer& pk_;
+
+    // MessagePack counts are at most 32 bits wide; msgpack-c silently truncates larger ones
+    static std::size_t count(std::size_t n) {
+        if (n > std::numeric_limits<std::uint32_t>::max()) throw SerializationError("msgpack: length exceeds 32 bits");
+        return n;
+    }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
@@ -543,20 +549,20 @@ public:
     void uint64(std::uint64_t v){ msgpack_pack_uint64(&pk_, v); }
     void double_(double v)      { msgpack_pack_double(&pk_, v); }
     void string(std::string_view sv) {
-        msgpack_pack_str(&pk_, sv.size());
+        msgpack_pack_str(&pk_, count(sv.size()));
         msgpack_pack_str_body(&pk_, sv.data(), sv.size());
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        msgpack_pack_bin(&pk_, b.size());
+        msgpack_pack_bin(&pk_, count(b.size()));
         msgpack_pack_bin_body(&pk_, p, b.size());
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, n); }
+    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, count(n)); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, n); }
+    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, count(n)); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From 73dfc163cd7ac45e5fb06806eefe32d015762358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:51 +0000
Subject: [PATCH 13/35] fix: MsgPack writer reports a failed append instead of
 dropping bytes

---
 include/zerialize/protocols/msgpack.hpp | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index d2a4a16..26e5af4 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -539,30 +539,34 @@ class MsgPackSerializer {
         if (n > std::numeric_limits<std::uint32_t>::max()) throw SerializationError("msgpack: length exceeds 32 bits");
         return n;
     }
+    // the buffer could not grow
+    static void check(int rc) {
+        if (rc != 0) throw SerializationError("msgpack: out of memory");
+    }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
     // primitives
-    void null()                 { msgpack_pack_nil(&pk_); }
-    void boolean(bool v)        { v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_); }
-    void int64(std::int64_t v)  { msgpack_pack_int64(&pk_, v); }
-    void uint64(std::uint64_t v){ msgpack_pack_uint64(&pk_, v); }
-    void double_(double v)      { msgpack_pack_double(&pk_, v); }
+    void null()                 { check(msgpack_pack_nil(&pk_)); }
+    void boolean(bool v)        { check(v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_)); }
+    void int64(std::int64_t v)  { check(msgpack_pack_int64(&pk_, v)); }
+    void uint64(std::uint64_t v){ check(msgpack_pack_uint64(&pk_, v)); }
+    void double_(double v)      { check(msgpack_pack_double(&pk_, v)); }
     void string(std::string_view sv) {
-        msgpack_pack_str(&pk_, count(sv.size()));
-        msgpack_pack_str_body(&pk_, sv.data(), sv.size());
+        check(msgpack_pack_str(&pk_, count(sv.size())));
+        check(msgpack_pack_str_body(&pk_, sv.data(), sv.size()));
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        msgpack_pack_bin(&pk_, count(b.size()));
-        msgpack_pack_bin_body(&pk_, p, b.size());
+        check(msgpack_pack_bin(&pk_, count(b.size())));
+        check(msgpack_pack_bin_body(&pk_, p, b.size()));
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, count(n)); }
+    void begin_array(std::size_t n) { check(msgpack_pack_array(&pk_, count(n))); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, count(n)); }
+    void begin_map(std::size_t n)   { check(msgpack_pack_map(&pk_, count(n))); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From f59afffe9c470161a786d96037c11f71f47e8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:29 +0000
Subject: [PATCH 14/35] fix: Zera contains() must agree with lookup on an entry
 whose value is cut off

---
 include/zerialize/protocols/zera.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index bd0afaf..ebb28d6 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -413,6 +413,7 @@ public:
             const std::uint16_t key_len = read_u16_le(e);
             (void)read_u16_le(e + 2); // reserved
             const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
+            (void)env_ptr_at(ofs + 4 + key_len, 16); // a member is an entry whose value can be read
             if (key_len == key.size() &&
                 std::memcmp(key_bytes, key.data(), key.size()) == 0) return true;
             ofs += 4 + std::size_t(key_len) + 16;
-- 
2.43.0


From 3a2e2307a79aa54fd887c89ddf37ce3c8192fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 15/35] fix: a copy of an owning cbor reader reads its own
 bytes

---
 include/zerialize/protocols/cbor.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index afd4a87..b9c0eeb 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -207,6 +207,17 @@ class CborDeserializer {
 public:
     // ---- ctors ----
     CborDeserializer() = default;
+
+    // A copy of a reader that owns its bytes reads its own copy of them.
+    CborDeserializer(const CborDeserializer& o) : buf_(o.buf_), owned_(o.owned_), pos_(o.pos_) {
+        if (!owned_.empty()) buf_ = std::span<const uint8_t>(owned_.data(), owned_.size());
+    }
+    CborDeserializer(CborDeserializer&&) = default;
+    CborDeserializer& operator=(const CborDeserializer& o) {
+        CborDeserializer copy(o);
+        return *this = std::move(copy);
+    }
+    CborDeserializer& operator=(CborDeserializer&&) = default;
     explicit CborDeserializer(std::span<const uint8_t> bytes) : buf_(bytes), pos_(0) {}
     explicit CborDeserializer(const std::vector<uint8_t>& buf)
         : owned_(buf.begin(), buf.end())
-- 
2.43.0


From 82b45615766364959a68c2878093c96c6a1e72e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 16/35] fix: a copy of an owning flex reader reads its own
 bytes

---
 include/zerialize/protocols/flex.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 7a4a8ab..dcd3807 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -375,6 +375,18 @@ public:
         ref_ = owned_.empty() ? ::flexbuffers::Reference{} : ::flexbuffers::GetRoot(owned_);
       }
 
+    // A copy of a reader that owns its bytes reads its own copy of them.
+    FlexDeserializer(const FlexDeserializer& o)
+      : FlexViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) ref_ = ::flexbuffers::GetRoot(owned_);
+    }
+    FlexDeserializer(FlexDeserializer&&) = default;
+    FlexDeserializer& operator=(const FlexDeserializer& o) {
+        FlexDeserializer copy(o);
+        return *this = std::move(copy);
+    }
+    FlexDeserializer& operator=(FlexDeserializer&&) = default;
+
     // -------- constructors (non-owning / zero-copy) --------
     explicit FlexDeserializer(std::span<const uint8_t> bytes)
       : FlexViewBase(), view_(bytes) {
-- 
2.43.0


From 7f11120481043c130176fbf0d7d0e09ddd58c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 17/35] fix: a copy of an owning msgpack reader reads its own
 bytes

---
 include/zerialize/protocols/msgpack.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 26e5af4..e6264e1 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -227,6 +227,17 @@ public:
     // ---- ctors ----
     MsgPackDeserializer() = default;
 
+    // A copy of a reader that owns its bytes reads its own copy of them.
+    MsgPackDeserializer(const MsgPackDeserializer& o)
+      : owned_(o.owned_),
+        view_(owned_.empty() ? o.view_ : std::span<const uint8_t>(owned_)) {}
+    MsgPackDeserializer(MsgPackDeserializer&&) = default;
+    MsgPackDeserializer& operator=(const MsgPackDeserializer& o) {
+        MsgPackDeserializer copy(o);
+        return *this = std::move(copy);
+    }
+    MsgPackDeserializer& operator=(MsgPackDeserializer&&) = default;
+
     // Non-owning view constructor (zero-copy): caller must keep `bytes` alive.
     explicit MsgPackDeserializer(std::span<const uint8_t> bytes)
       : view_(bytes) {}
-- 
2.43.0


From d3e6ac12bb266fbee3ad4411245ec6faa59c9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 18/35] fix: a copy of an owning zera reader reads its own
 bytes

---
 include/zerialize/protocols/zera.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index ebb28d6..678ffc9 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -517,6 +517,23 @@ class ZeraDeserializer final : public ZeraViewBase {
 public:
     ZeraDeserializer() = default;
 
+    // A copy of a reader that owns its bytes reads its own copy of them.
+    ZeraDeserializer(const ZeraDeserializer& o) : ZeraViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) {
+            view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+            buf_ = view_.data();
+            env_ = buf_ + (o.env_ - o.buf_);
+            arena_ = buf_ + (o.arena_ - o.buf_);
+            vr_ = buf_ + (o.vr_ - o.buf_);
+        }
+    }
+    ZeraDeserializer(ZeraDeserializer&&) = default;
+    ZeraDeserializer& operator=(const ZeraDeserializer& o) {
+        ZeraDeserializer copy(o);
+        return *this = std::move(copy);
+    }
+    ZeraDeserializer& operator=(ZeraDeserializer&&) = default;
+
     explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf) : owned_(buf) {
         view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
         init_from(view_);
-- 
2.43.0


From 87903077d2ae04325ab84aa5541cfe59ab10badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:24 +0000
Subject: [PATCH 19/35] fix: flex keys that are not NUL-terminated in memory
 were written wrongly

---
 include/zerialize/protocols/flex.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index dcd3807..a6585da 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -89,8 +89,9 @@ struct Serializer {
     }
 
     void key(std::string_view k) {
-        // FlexBuffers requires a key immediately before its value
-        r->fbb.Key(k.data(), k.size());
+        // FlexBuffers requires a key immediately before its value, and copies
+        // the terminating NUL along with it, which a string_view need not have
+        r->fbb.Key(std::string(k));
     }
 
 private:
-- 
2.43.0


From 9e7d656737aa4763aec2deeb5d8a39c124ecc54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 20/35] fix: flex typed vectors were reported as empty arrays

---
 include/zerialize/protocols/flex.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index a6585da..48c0ec3 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -301,6 +301,8 @@ public:
 
     std::size_t arraySize() const {
         require(isArray(), "not an array");
+        if (ref_.IsTypedVector()) return ref_.AsTypedVector().size();
+        if (ref_.IsFixedTypedVector()) return ref_.AsFixedTypedVector().size();
         return ref_.AsVector().size();
     }
 
@@ -348,9 +350,10 @@ inline FlexValue FlexViewBase::operator[](std::string_view key) const {
 
 inline FlexValue FlexViewBase::operator[](std::size_t idx) const {
     require(isArray(), "not an array");
-    auto v = ref_.AsVector();
-    require(idx < v.size(), "index out of bounds");
-    return FlexValue(v[idx]);
+    require(idx < arraySize(), "index out of bounds");
+    if (ref_.IsTypedVector()) return FlexValue(ref_.AsTypedVector()[idx]);
+    if (ref_.IsFixedTypedVector()) return FlexValue(ref_.AsFixedTypedVector()[idx]);
+    return FlexValue(ref_.AsVector()[idx]);
 }
 
 class FlexDeserializer : public FlexViewBase {
-- 
2.43.0


From 30af6ac24383e9f8b8822cb46347f34017543fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 21/35] fix: flex 8- to 32-bit integer accessors silently
 truncated the value

---
 include/zerialize/protocols/flex.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 48c0ec3..4f2026b 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <span>
 #include <stdexcept>
+#include <utility>
 #include <iostream>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -119,6 +120,12 @@ protected:
         if (!cond) throw DeserializationError(msg);
     }
 
+    template<class T, class V>
+    static T narrowed(V v) {
+        if (!std::in_range<T>(v)) throw DeserializationError("integer out of range");
+        return static_cast<T>(v);
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -223,14 +230,14 @@ public:
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
 
     // Scalars
-    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return ref_.AsInt8(); }
-    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt16(); }
-    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt32(); }
+    int8_t   asInt8()   const { return narrowed<int8_t>(asInt64()); }
+    int16_t  asInt16()  const { return narrowed<int16_t>(asInt64()); }
+    int32_t  asInt32()  const { return narrowed<int32_t>(asInt64()); }
     int64_t  asInt64()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt64(); }
 
-    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint8_t>(ref_.AsUInt8()); }
-    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint16_t>(ref_.AsUInt16()); }
-    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint32_t>(ref_.AsUInt32()); }
+    uint8_t  asUInt8()  const { return narrowed<uint8_t>(asUInt64()); }
+    uint16_t asUInt16() const { return narrowed<uint16_t>(asUInt64()); }
+    uint32_t asUInt32() const { return narrowed<uint32_t>(asUInt64()); }
     uint64_t asUInt64() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint64_t>(ref_.AsUInt64()); }
 
     float    asFloat()  const { require(isFloat(), "value is not a float"); return static_cast<float>(ref_.AsFloat()); }
-- 
2.43.0


From fe49f69242a97fd6d3d1d4077855bdecc5812606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:19 +0000
Subject: [PATCH 22/35] fix: refuse Eigen matrices whose byte size overflows
 size_t

---
 include/zerialize/tensor/eigen.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 9145157..c7bef21 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstring>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <span>
 #include <type_traits>
@@ -154,6 +155,10 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
     };
     auto bytes = to_span(blob);
 
+    // The extents are attacker-controlled, so their product must not wrap around.
+    if (cols != 0 && rows > std::numeric_limits<std::size_t>::max() / sizeof(T) / cols) {
+        throw DeserializationError("asEigenMatrixView: matrix size overflow");
+    }
     const std::size_t expected = rows * cols * sizeof(T);
     if (bytes.size() != expected) {
         throw DeserializationError(
-- 
2.43.0


From e38ced8e387e4e80e125dcd841550700af480688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:19 +0000
Subject: [PATCH 23/35] fix: refuse xtensor tensors whose byte size overflows
 size_t

---
 include/zerialize/tensor/xtensor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 0a82e38..11b2361 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -147,6 +147,9 @@ XTensorView<T> asXTensorView(const Reader auto& buf) {
 
     // Validate payload size to avoid reading off the end, truncating, or leaving elements uninitialized.
     const std::size_t element_count = checked_element_count(vshape);
+    if (element_count > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected_bytes = element_count * sizeof(T);
     if (bytes.size() != expected_bytes) {
         throw DeserializationError(
-- 
2.43.0


From 4d5746d5d18b7d3fc38171e1295b66861abca2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:04 +0000
Subject: [PATCH 24/35] fix: refuse tensor dimensions that do not fit the
 stored shape

---
 include/zerialize/tensor/utils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 58e1336..d029770 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -78,7 +78,12 @@ inline TensorShape shape_of_sizet(const auto& tshape) {
     TensorShape shape;
     shape.reserve(tshape.size());
     std::transform(tshape.begin(), tshape.end(), std::back_inserter(shape),
-        [](auto x) { return static_cast<TensorShapeElement>(x); });
+        [](auto x) {
+            if (static_cast<std::size_t>(x) > std::numeric_limits<TensorShapeElement>::max()) {
+                throw SerializationError("tensor dimension exceeds TensorShapeElement range");
+            }
+            return static_cast<TensorShapeElement>(x);
+        });
     return shape;
 }
 
-- 
2.43.0


From 55ca98103015c07d68f9bfe73280a11ba5a7df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:04 +0000
Subject: [PATCH 25/35] fix: evaluate xtensor views and non-row-major tensors
 before writing their bytes

---
 include/zerialize/tensor/xtensor.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 11b2361..4ae9605 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -21,6 +21,15 @@ namespace xt {
 
 template <zerialize::HasDataAndSize X, zerialize::Writer W>
 void serialize(const X& t, W& w) {
+    // Only the storage of a row-major container holds exactly its elements in order;
+    // views (and other layouts) share somebody else's storage and must be evaluated first.
+    if constexpr (is_xexpression<X>::value) {
+        if constexpr (!std::is_base_of_v<xcontainer<X>, X> || X::static_layout != layout_type::row_major) {
+            const xarray<typename X::value_type, layout_type::row_major> evaluated(t);
+            serialize(evaluated, w);
+            return;
+        }
+    }
     zerialize::zvec(
         zerialize::tensor_dtype_index<typename X::value_type>,
         zerialize::shape_of_sizet(t.shape()),
-- 
2.43.0


From 42dbfe1c0fd300eca0f60c19673f08d941f68b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 26/35] fix: CBOR reader checks payload lengths without
 wrap-around

A length near 2^64 made position + length wrap, so truncated strings and byte
strings passed the check; float payloads, string chunks that are skipped and
map keys compared by contains() were not checked at all.
---
 include/zerialize/protocols/cbor.hpp | 38 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index b9c0eeb..6644095 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -80,6 +80,11 @@ class CborDeserializer {
         if (!cond) throw DeserializationError(msg);
     }
 
+    // n payload bytes must be present at q; written so that q + n cannot wrap around
+    void ensure_payload(std::size_t q, uint64_t n, const char* msg) const {
+        ensure(q <= buf_.size() && n <= buf_.size() - q, msg);
+    }
+
     static uint64_t get_be(const uint8_t* p, std::size_t n) {
         uint64_t v = 0;
         for (std::size_t i = 0; i < n; ++i) v = (v << 8) | p[i];
@@ -134,7 +139,7 @@ class CborDeserializer {
             case 2: // bstr
             case 3: // tstr
                 if (!h.indefinite) {
-                    ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
+                    ensure_payload(q, h.val, "CBOR: truncated string");
                     return q + static_cast<std::size_t>(h.val);
                 } else {
                     // chunks terminated by 0xFF
@@ -144,7 +149,9 @@ class CborDeserializer {
                         auto ch = read_head(q);
                         ensure(ch.major == h.major, "CBOR: wrong chunk type");
                         ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
-                        q += ch.hlen + static_cast<std::size_t>(ch.val);
+                        q += ch.hlen;
+                        ensure_payload(q, ch.val, "CBOR: truncated chunk");
+                        q += static_cast<std::size_t>(ch.val);
                     }
                 }
             case 4: // array
@@ -271,6 +278,7 @@ public:
     double   asDouble() const {
         auto h = head(); ensure(isFloat(), "CBOR: not a float");
         std::size_t q = pos_ + h.hlen;
+        ensure_payload(q, h.addl == 25 ? 2 : h.addl == 26 ? 4 : 8, "CBOR: truncated float");
         if (h.addl == 25) { uint16_t v = (uint16_t)((buf_[q] << 8) | buf_[q+1]); return decode_f16(v); }
         if (h.addl == 26) { uint32_t v = (uint32_t)get_be(&buf_[q],4); float f; std::memcpy(&f,&v,4); return static_cast<double>(f); }
         uint64_t v = get_be(&buf_[q],8); double d; std::memcpy(&d,&v,8); return d;
@@ -281,16 +289,16 @@ public:
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         std::size_t q = pos_ + h.hlen;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-            return std::string(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+            ensure_payload(q, h.val, "CBOR: truncated string");
+            return std::string(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
         } else {
             std::string out;
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: truncated indef tstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==3 && !ch.indefinite, "CBOR: bad tstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc");
-                out.append(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(ch.val));
+                q += ch.hlen; ensure_payload(q, ch.val, "CBOR: trunc");
+                out.append(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(ch.val));
                 q += ch.val;
             }
             return out;
@@ -299,15 +307,15 @@ public:
     std::string_view asStringView() const {
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         ensure(!h.indefinite, "CBOR: string is indefinite; use asString()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc tstr");
-        return std::string_view(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+        std::size_t q = pos_ + h.hlen; ensure_payload(q, h.val, "CBOR: trunc tstr");
+        return std::string_view(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
     }
 
     std::span<const std::byte> asBlob() const {
         auto h = head(); ensure(h.major==2, "CBOR: not a byte string");
         ensure(!h.indefinite, "CBOR: chunked byte string; fetch via asBlobVec()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-        auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+        std::size_t q = pos_ + h.hlen; ensure_payload(q, h.val, "CBOR: trunc bstr");
+        auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
         return { p, static_cast<std::size_t>(h.val) };
     }
     std::vector<std::byte> asBlobVec() const {
@@ -315,16 +323,16 @@ public:
         std::size_t q = pos_ + h.hlen;
         std::vector<std::byte> out;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-            auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+            ensure_payload(q, h.val, "CBOR: trunc bstr");
+            auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
             out.insert(out.end(), p, p + h.val);
         } else {
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: trunc indef bstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==2 && !ch.indefinite, "CBOR: bad bstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc chunk");
-                auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+                q += ch.hlen; ensure_payload(q, ch.val, "CBOR: trunc chunk");
+                auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
                 out.insert(out.end(), p, p + ch.val);
                 q += ch.val;
             }
@@ -342,7 +350,7 @@ public:
                 auto kh = read_head(q);
                 std::string_view ksv;
                 if (kh.major==3 && !kh.indefinite) {
-                    ksv = std::string_view(reinterpret_cast<const char*>(&buf_[q+kh.hlen]), static_cast<std::size_t>(kh.val));
+                    ksv = CborDeserializer(buf_, q).asStringView();
                 } else {
                     // fallback: decode key to string
                     CborDeserializer keyv(buf_, q);
-- 
2.43.0


From 5e78ee521133f6b4a393f649af739cf6f4aa3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 27/35] fix: CBOR key iteration decodes keys with the reader's
 own bounds checks

The iterator had its own unchecked copy of the head decoder and skipper, and
the end of an indefinite-length map never compared equal to its last position.
---
 include/zerialize/protocols/cbor.hpp | 50 +++++-----------------------
 1 file changed, 9 insertions(+), 41 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 6644095..f3b99da 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -393,50 +393,18 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
-            struct H { uint8_t major, addl; uint64_t val; std::size_t hlen; bool indefinite; };
-            static H read_head(std::span<const uint8_t> b, std::size_t p) {
-                uint8_t bb = b[p];
-                H h{}; h.major = bb>>5; h.addl=bb&0x1F; h.hlen=1; h.val=0; h.indefinite=false;
-                if (h.major==7) {
-                    if (h.addl==25) { h.val=2; }
-                    else if (h.addl==26) { h.val=4; }
-                    else if (h.addl==27) { h.val=8; }
-                    else if (h.addl==24) { h.hlen=2; }
-                    else if (h.addl==31) { h.indefinite=true; }
-                    return h;
-                }
-                if (h.addl<24) { h.val=h.addl; }
-                else if (h.addl==24) { h.val=b[p+1]; h.hlen=2; }
-                else if (h.addl==25) { h.val=(uint64_t)b[p+1]<<8 | b[p+2]; h.hlen=3; }
-                else if (h.addl==26) { h.val=((uint64_t)b[p+1]<<24)|((uint64_t)b[p+2]<<16)|((uint64_t)b[p+3]<<8)|b[p+4]; h.hlen=5; }
-                else if (h.addl==27) { h.val=((uint64_t)b[p+1]<<56)|((uint64_t)b[p+2]<<48)|((uint64_t)b[p+3]<<40)|((uint64_t)b[p+4]<<32)|((uint64_t)b[p+5]<<24)|((uint64_t)b[p+6]<<16)|((uint64_t)b[p+7]<<8)|b[p+8]; h.hlen=9; }
-                else if (h.addl==31) { h.indefinite=true; }
-                return h;
-            }
-            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) {
-                auto h = read_head(b,p); std::size_t q=p+h.hlen;
-                switch (h.major) {
-                    case 0: case 1: return q;
-                    case 2: case 3:
-                        if (!h.indefinite) return q + (std::size_t)h.val;
-                        for (;;) { if (b[q]==0xFF) return q+1; auto ch=read_head(b,q); q += ch.hlen + (std::size_t)ch.val; }
-                    case 4:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i) q=skip(b,q); return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q);}        
-                    case 5:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i){ q=skip(b,q); q=skip(b,q);} return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q); q=skip(b,q);} 
-                    case 6: return skip(b,q);
-                    case 7:
-                        if (h.addl==25) return q+2; if (h.addl==26) return q+4; if (h.addl==27) return q+8; return q;
-                }
-                return q;
+            // the reader's own decoding, which checks every position against the buffer
+            static Head read_head(std::span<const uint8_t> b, std::size_t p) { return CborDeserializer(b).read_head(p); }
+            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) { return CborDeserializer(b).skip(p); }
+            static bool at_break(std::span<const uint8_t> b, std::size_t p) {
+                ensure(p < b.size(), "CBOR: trunc indef map");
+                return b[p] == 0xFF;
             }
 
             reference operator*() const {
                 auto kh = read_head(buf, q);
                 if (kh.major==3 && !kh.indefinite) {
-                    return std::string_view(reinterpret_cast<const char*>(&buf[q+kh.hlen]), (std::size_t)kh.val);
+                    return CborDeserializer(buf, q).asStringView();
                 }
                 // fallback: materialize
                 CborDeserializer v(std::span<const uint8_t>(buf.data(), buf.size()), q);
@@ -445,7 +413,7 @@ public:
             }
             iterator& operator++() {
                 if (indefinite) {
-                    if (buf[q]==0xFF) return *this; // already at end
+                    if (at_break(buf,q)) return *this; // already at end
                     q = skip(buf,q); // key
                     q = skip(buf,q); // value
                 } else {
@@ -469,7 +437,7 @@ public:
                 std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
             } else {
                 // find break
-                std::size_t q = start + h.hlen; for(;;){ if (buf[q]==0xFF){ it.q=q+1; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
+                std::size_t q = start + h.hlen; for(;;){ if (iterator::at_break(buf,q)){ it.q=q; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
             }
         }
     };
-- 
2.43.0


From 135c37746b1ab562866635bf543812229ccb6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 28/35] fix: CBOR skips a one-byte simple value by its own
 length

The value byte of simple(24) was counted twice.
---
 include/zerialize/protocols/cbor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index f3b99da..edb1408 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -184,7 +184,7 @@ class CborDeserializer {
                 if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
                 if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
                 if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
-                if (h.addl == 24) { ensure(q+1 <= buf_.size(), "CBOR: truncated simple(24)"); return q+1; }
+                if (h.addl == 24) return q;    // read_head counts the value byte
                 // simple/bool/null (no body): header only
                 return q;
             default:
-- 
2.43.0


From e536c21fac71fbbb72b1e5c5e9777f38f9460242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 29/35] fix: CBOR reader rejects reserved additional
 information and stray breaks

---
 include/zerialize/protocols/cbor.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index edb1408..01df947 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -113,6 +113,8 @@ class CborDeserializer {
                 h.hlen = 2; h.val = 0;
             } else if (h.addl == 31) {
                 h.indefinite = true;
+            } else if (h.addl >= 28) {
+                throw DeserializationError("CBOR: reserved additional info");
             } else {
                 // null/true/false/simple (no body)
                 h.val = 0;
@@ -124,7 +126,7 @@ class CborDeserializer {
         else if (h.addl == 25) { ensure(p+3 <= buf_.size(), "CBOR: truncated u16"); h.val = get_be(&buf_[p+1],2); h.hlen = 3; }
         else if (h.addl == 26) { ensure(p+5 <= buf_.size(), "CBOR: truncated u32"); h.val = get_be(&buf_[p+1],4); h.hlen = 5; }
         else if (h.addl == 27) { ensure(p+9 <= buf_.size(), "CBOR: truncated u64"); h.val = get_be(&buf_[p+1],8); h.hlen = 9; }
-        else if (h.addl == 31) { h.indefinite = true; }
+        else if (h.addl == 31 && h.major >= 2 && h.major <= 5) { h.indefinite = true; }
         else { throw DeserializationError("CBOR: reserved additional info"); }
         return h;
     }
@@ -185,6 +187,7 @@ class CborDeserializer {
                 if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
                 if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
                 if (h.addl == 24) return q;    // read_head counts the value byte
+                ensure(!h.indefinite, "CBOR: unexpected break");
                 // simple/bool/null (no body): header only
                 return q;
             default:
-- 
2.43.0


From 8d8241d832e391f534b388fe9b0e9b74f0c4acac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 30/35] fix: CBOR asInt64 rejects unsigned values above
 INT64_MAX

---
 include/zerialize/protocols/cbor.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 01df947..a917a19 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -265,7 +265,10 @@ public:
     int64_t  asInt64()  const {
         auto h = head();
         ensure(h.major==0 || h.major==1, "CBOR: not an integer");
-        if (h.major==0) return static_cast<int64_t>(h.val);
+        if (h.major==0) {
+            if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 out of range");
+            return static_cast<int64_t>(h.val);
+        }
         // negative: -1 - n
         if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 underflow");
         long long x = -1 - static_cast<long long>(h.val);
-- 
2.43.0


From 74dfcca450576d9b61e9f9189bd1ab106ad44ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 31/35] fix: CBOR to_string stays inside the buffer

Strings and chunked byte strings were read unchecked, nested arrays were
listed with the root's size, and an empty map listed one entry.
---
 include/zerialize/protocols/cbor.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index a917a19..f10df18 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -501,23 +501,28 @@ private:
         }
     }
     void dump_rec(std::ostringstream& os, std::size_t p, int pad) const {
-        auto h = read_head(p); auto t = type_code(p); std::size_t q = p + h.hlen;
+        auto h = read_head(p); auto t = type_code(p);
         if (h.major==0) { os << t << '|' << h.val; }
         else if (h.major==1) { long long x = -1 - (long long)h.val; os << t << '|' << x; }
         else if (h.major==7 && (h.addl==25||h.addl==26||h.addl==27)) { os << t << '|' << CborDeserializer(buf_, p).asDouble(); }
         else if (h.major==7 && (h.addl==20||h.addl==21)) { os << t << "| " << (h.addl==21?"true":"false"); }
         else if (h.major==7 && h.addl==22) { os << t << "|null"; }
         else if (h.major==3) {
-            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(&buf_[q]), (std::size_t)h.val) << '"'; }
-            else { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
+            os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"';
         } else if (h.major==2) {
-            std::size_t total = 0; if (!h.indefinite) total = (std::size_t)h.val; else { for(;;){ if(buf_[q]==0xFF) break; auto ch = read_head(q); total += (std::size_t)ch.val; q += ch.hlen + (std::size_t)ch.val; } }
+            std::size_t total = CborDeserializer(buf_, p).asBlobVec().size();
             os << t << "[size=" << total << "]";
         } else if (h.major==4) {
-            os << t << " [\n"; std::size_t n = arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
+            os << t << " [\n"; std::size_t n = CborDeserializer(buf_, p).arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
         } else if (h.major==5) {
-            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = h.indefinite ? arraySize() : (std::size_t)h.val; // rough
-            std::size_t i=0; while (true){ if (h.indefinite && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
+            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t i = 0;
+            for (;; ++i) {
+                if (h.indefinite) { ensure(q2 < buf_.size(), "CBOR: trunc indef map"); if (buf_[q2]==0xFF) break; }
+                else if (i >= h.val) break;
+                if (i) os << ",\n";
+                indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2);
+            }
+            if (i) os << "\n";
             indent(os, pad); os << '}';
         } else {
             os << t;
-- 
2.43.0


From 43da6d5f5644d10e693891fe213753e7339a63a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 32/35] fix: JSON integer accessors report values outside the
 requested type instead of truncating them

---
 include/zerialize/protocols/json.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index c07a7ac..7fa05cc 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -156,14 +156,18 @@ public:
     }
 
     // --- scalars ---
-    int8_t   asInt8()   const { check(yyjson_is_int,  "signed integer"); return static_cast<int8_t>(yyjson_get_sint(cur_)); }
-    int16_t  asInt16()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int16_t>(yyjson_get_sint(cur_)); }
-    int32_t  asInt32()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int32_t>(yyjson_get_sint(cur_)); }
-    int64_t  asInt64()  const { check(yyjson_is_int,  "signed integer"); return yyjson_get_sint(cur_); }
-
-    uint8_t  asUInt8()  const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint8_t>(yyjson_get_uint(cur_)); }
-    uint16_t asUInt16() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint16_t>(yyjson_get_uint(cur_)); }
-    uint32_t asUInt32() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint32_t>(yyjson_get_uint(cur_)); }
+    int8_t   asInt8()   const { auto v = asInt64();  if (v < INT8_MIN  || v > INT8_MAX)  throw DeserializationError("int8 out of range");  return static_cast<int8_t>(v); }
+    int16_t  asInt16()  const { auto v = asInt64();  if (v < INT16_MIN || v > INT16_MAX) throw DeserializationError("int16 out of range"); return static_cast<int16_t>(v); }
+    int32_t  asInt32()  const { auto v = asInt64();  if (v < INT32_MIN || v > INT32_MAX) throw DeserializationError("int32 out of range"); return static_cast<int32_t>(v); }
+    int64_t  asInt64()  const {
+        check(yyjson_is_int, "signed integer");
+        ensure(!yyjson_is_uint(cur_) || yyjson_get_uint(cur_) <= static_cast<uint64_t>(INT64_MAX), "int64 out of range");
+        return yyjson_get_sint(cur_);
+    }
+
+    uint8_t  asUInt8()  const { auto v = asUInt64(); if (v > UINT8_MAX)  throw DeserializationError("uint8 out of range");  return static_cast<uint8_t>(v); }
+    uint16_t asUInt16() const { auto v = asUInt64(); if (v > UINT16_MAX) throw DeserializationError("uint16 out of range"); return static_cast<uint16_t>(v); }
+    uint32_t asUInt32() const { auto v = asUInt64(); if (v > UINT32_MAX) throw DeserializationError("uint32 out of range"); return static_cast<uint32_t>(v); }
     uint64_t asUInt64() const { check(yyjson_is_uint, "unsigned integer"); return yyjson_get_uint(cur_); }
 
     float    asFloat()  const { check(yyjson_is_real, "float");  return static_cast<float>(yyjson_get_real(cur_)); }
-- 
2.43.0


From 954489e12d0d2d896b4dac70929ef089eadf4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 33/35] fix: JSON writer copies string bytes into the document

---
 include/zerialize/protocols/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 7fa05cc..9238709 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -288,7 +288,7 @@ struct Serializer {
     void uint64(std::uint64_t v){ push_value(yyjson_mut_uint(doc(), v)); }
     void double_(double v)      { push_value(yyjson_mut_real(doc(), v)); }
     void string(std::string_view sv) {
-        push_value(yyjson_mut_strn(doc(), sv.data(), sv.size()));
+        push_value(yyjson_mut_strncpy(doc(), sv.data(), sv.size()));
     }
     // Encode binary as array of 0..255
     void binary(std::span<const std::byte> b) {
-- 
2.43.0


From 745c18ed038dc63d8e4540205ff3e05081e615fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 34/35] fix: JSON writer stores keys by their length, embedded
 NUL characters included

---
 include/zerialize/protocols/json.hpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 9238709..3a92919 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -362,24 +362,11 @@ private:
             if (c.pending_key.empty())
                 throw std::logic_error("value added to object without key()");
     
-            // optional sanity check during debug
-            #ifndef NDEBUG
-            if (c.pending_key.find('\0') != std::string::npos) {
-                throw std::logic_error("embedded NUL in key() input");
-            }
-            #endif
-    
-            // EITHER use the convenience helper if your yyjson has it:
-            #if defined(YYJSON_VERSION_HEX) && (YYJSON_VERSION_HEX >= 0x000e00) // 0.14.0+
-            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key.c_str(), v))
-                throw std::bad_alloc{};
-            #else
-            // OR the portable two-step using a *cpy* string node (always null-terminated):
-            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key.c_str());
+            // the document keeps its own copy of the key, which may hold NUL characters
+            yyjson_mut_val* k = yyjson_mut_strncpy(doc(), c.pending_key.data(), c.pending_key.size());
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
-            #endif
-    
+
             c.pending_key.clear();
     }
     }
-- 
2.43.0


From 371d93308f63ad1c7e8dc16dadef2b8936740e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 35/35] fix: JSON writer accepts empty keys

---
 include/zerialize/protocols/json.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 3a92919..d239ec1 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -246,6 +246,7 @@ struct RootSerializer {
         enum K { Arr, Obj } k;
         yyjson_mut_val* node;        // array or object node
         std::string pending_key;     // for objects: set by key(), consumed by next value
+        bool has_key = false;        // whether pending_key is set (a key may be empty)
     };
     std::vector<Ctx> st;
 
@@ -323,7 +324,7 @@ struct Serializer {
     }
     void end_map() {
         ensure_in(RootSerializer::Ctx::Obj, "end_map");
-        if (!r->st.back().pending_key.empty())
+        if (r->st.back().has_key)
             throw std::logic_error("end_map() while awaiting value for key()");
         r->st.pop_back();
     }
@@ -331,9 +332,10 @@ struct Serializer {
     void key(std::string_view k) {
         ensure_in(RootSerializer::Ctx::Obj, "key");
         auto& c = r->st.back();
-        if (!c.pending_key.empty())
+        if (c.has_key)
             throw std::logic_error("key() called twice without value");
         c.pending_key.assign(k.data(), k.size());
+        c.has_key = true;
      }
 
 private:
@@ -359,7 +361,7 @@ private:
 
             // current: c.pending_key holds a std::string we set in key()
             // auto& c = r->st.back();
-            if (c.pending_key.empty())
+            if (!c.has_key)
                 throw std::logic_error("value added to object without key()");
     
             // the document keeps its own copy of the key, which may hold NUL characters
@@ -367,7 +369,7 @@ private:
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
 
-            c.pending_key.clear();
+            c.has_key = false;
     }
     }
 
-- 
2.43.0

