From eb6930812443c3c588dd59c08d8c16fa86bef6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:29 +0000
Subject: [PATCH 1/8] fix: hash functions treat input as unsigned bytes

fnv1a sign-extended bytes >= 0x80 and get16bits let a negative low byte
overwrite the high one (and left-shifted negative values), so the results
differed from the published FNV-1a and SuperFastHash algorithms.
---
 include/kl/hash.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kl/hash.hpp b/include/kl/hash.hpp
index ac174c5..b10b823 100644
--- a/include/kl/hash.hpp
+++ b/include/kl/hash.hpp
@@ -11,7 +11,7 @@ constexpr std::uint32_t fnv1a(const char* data, std::size_t length) noexcept
 {
     uint32_t hash = 2166136261U;
     for (std::size_t i = 0; i < length; ++i)
-        hash = (hash ^ static_cast<uint32_t>(data[i])) * 16777619U;
+        hash = (hash ^ static_cast<std::uint8_t>(data[i])) * 16777619U;
     return hash;
 }
 
@@ -39,7 +39,8 @@ namespace detail {
 
 constexpr std::uint16_t get16bits(const char* d) noexcept
 {
-    return static_cast<std::uint16_t>(d[0] | (d[1] << 8));
+    return static_cast<std::uint16_t>(static_cast<std::uint8_t>(d[0]) |
+                                      (static_cast<std::uint8_t>(d[1]) << 8));
 }
 } // namespace detail
 
@@ -70,7 +71,9 @@ constexpr std::uint32_t hsieh(const char* data, std::size_t length) noexcept
     case 3:
         hash += detail::get16bits(data);
         hash ^= hash << 16;
-        hash ^= static_cast<signed char>(data[sizeof(uint16_t)]) << 18;
+        hash ^= static_cast<uint32_t>(
+                    static_cast<signed char>(data[sizeof(uint16_t)]))
+                << 18;
         hash += hash >> 11;
         break;
     case 2:
-- 
2.43.0


From 32c310c4181a6e46eab8310711264cf534884800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:29 +0000
Subject: [PATCH 2/8] fix: enum_iterator difference has the right sign

iterator_facade computes left - right as left.distance_to(right); enum_iterator
returned right - left (and wrapped for 32-bit unsigned enums), so operator- and
the ordering operators were reversed.
---
 include/kl/enum_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_range.hpp b/include/kl/enum_range.hpp
index 2fa4738..6ae00eb 100644
--- a/include/kl/enum_range.hpp
+++ b/include/kl/enum_range.hpp
@@ -35,7 +35,8 @@ public:
 
     std::ptrdiff_t distance_to(const enum_iterator& other) const
     {
-        return other.index_ - index_;
+        return static_cast<std::ptrdiff_t>(index_) -
+               static_cast<std::ptrdiff_t>(other.index_);
     }
 
     bool equal_to(const enum_iterator& other) const
-- 
2.43.0


From 4f2b67e6a1960fab131a35fc19048becc650cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:29 +0000
Subject: [PATCH 3/8] fix: file_view detects mmap failure

mmap reports failure with MAP_FAILED, not a null pointer, so a failed mapping
was exposed as contents (and later unmapped).
---
 src/file_view_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_view_unix.cpp b/src/file_view_unix.cpp
index a9e84d0..fa5a5f6 100644
--- a/src/file_view_unix.cpp
+++ b/src/file_view_unix.cpp
@@ -77,7 +77,7 @@ file_view::file_view(const char* file_path)
 
     void* mapped = ::mmap(nullptr, static_cast<std::size_t>(file_info.st_size),
                           PROT_READ, MAP_PRIVATE, fd, 0);
-    if (!mapped)
+    if (mapped == MAP_FAILED)
         throw_system_error();
 
     contents_ = gsl::span{static_cast<const std::byte*>(mapped),
-- 
2.43.0


From a193df7b6734141a716bbbdb9fc8918e705fae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:29 +0000
Subject: [PATCH 4/8] fix: file_view is not copyable

The implicitly generated copy shared the mapping and both objects unmapped it.
---
 include/kl/file_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/file_view.hpp b/include/kl/file_view.hpp
index 0ac80a8..cc4b795 100644
--- a/include/kl/file_view.hpp
+++ b/include/kl/file_view.hpp
@@ -12,6 +12,9 @@ public:
     explicit file_view(const char* file_path);
     ~file_view();
 
+    file_view(const file_view&) = delete;
+    file_view& operator=(const file_view&) = delete;
+
     gsl::span<const std::byte> get_bytes() const noexcept { return contents_; }
 
 private:
-- 
2.43.0


From 4d1ead7cfeabd91606a762902022f410e72f81d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:29 +0000
Subject: [PATCH 5/8] fix: cursor skip does not negate the smallest offset

-off overflows for the minimum ptrdiff_t.
---
 include/kl/binary_rw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/binary_rw.hpp b/include/kl/binary_rw.hpp
index 3eb0702..faeda79 100644
--- a/include/kl/binary_rw.hpp
+++ b/include/kl/binary_rw.hpp
@@ -35,7 +35,7 @@ public:
         // Make sure pos_ does not escape of buffer range
         if (off > 0 && static_cast<std::size_t>(off) > left())
             err_ = true;
-        if (off < 0 && static_cast<std::size_t>(-off) > pos_)
+        if (off < 0 && -static_cast<std::size_t>(off) > pos_)
             err_ = true;
 
         if (!err_)
-- 
2.43.0


From b516ba3b275d524d7c4d8685afec251cf61b6041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:42 +0000
Subject: [PATCH 6/8] fix: emission releases the current slot when a slot
 throws

The reference taken on the slot being invoked was only dropped on the normal
path, so a throwing slot was never destroyed.
---
 include/kl/signal.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 578d981..a8af5bc 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -612,6 +612,9 @@ public:
                 current->add_ref();
         }
         KL_DEFER({
+            // Set only when leaving early, e.g. a slot has thrown
+            if (current)
+                current->release();
             if (last)
                 last->release();
 
-- 
2.43.0


From bb51931de525876b3cc39801d0f135cebcb8eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:51 +0000
Subject: [PATCH 7/8] fix: an oversized length prefix is a read error, not an
 allocation failure

---
 include/kl/binary_rw/string.hpp |  7 +++++++
 include/kl/binary_rw/vector.hpp | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index 270174b..e085176 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -24,6 +24,13 @@ void read_binary(kl::binary_reader& r, std::string& str)
     if (!size)
         return;
 
+    // Don't allocate for what the input can't possibly contain
+    if (size > r.left())
+    {
+        r.notify_error();
+        return;
+    }
+
     str.resize(size);
     r >> gsl::make_span(str);
 
diff --git a/include/kl/binary_rw/vector.hpp b/include/kl/binary_rw/vector.hpp
index 0a039c5..31547e8 100644
--- a/include/kl/binary_rw/vector.hpp
+++ b/include/kl/binary_rw/vector.hpp
@@ -3,6 +3,8 @@
 #include "kl/binary_rw.hpp"
 #include "kl/type_traits.hpp"
 
+#include <algorithm>
+#include <cstddef>
 #include <vector>
 
 namespace kl {
@@ -39,6 +41,13 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
 
     if (size)
     {
+        // Don't allocate for what the input can't possibly contain
+        if (size > r.left() / sizeof(T))
+        {
+            r.notify_error();
+            return;
+        }
+
         vec.resize(size);
         r >> gsl::span<T>{vec};
 
@@ -57,7 +66,8 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
     const auto size = r.read<std::uint32_t>();
 
     vec.clear();
-    vec.reserve(size);
+    // The size is not trustworthy: don't reserve more than the input can hold
+    vec.reserve(std::min<std::size_t>(size, r.left()));
 
     for (std::uint32_t i = 0; i < size; ++i)
     {
-- 
2.43.0


From 39752e7dd9874ad468d417c038ba1345e2848878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:23 +0000
Subject: [PATCH 8/8] fix: deleting an optional container marks its elements as
 changed

---
 include/kl/resource_op.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 08ead13..8ddad6a 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -1061,7 +1061,8 @@ try
                 rollback.commit();
 
                 r.state.modifications.notify_changed(
-                    path, kl::ctti::is_reflectable_v<typename optional_traits::value_type>);
+                    path,
+                    detail::has_addressable_descendants_v<typename optional_traits::value_type>);
 
                 return operation_result{status_code::no_content, {}};
             }
-- 
2.43.0

