From d163c7dfdb48886d36a3d7815d16330bc54518d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 01/91] fix: release the old contents of a hash map on move
 assignment

---
 include/cista/containers/hash_storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 753c675..191c6a0 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -284,6 +284,7 @@ struct hash_storage {
     if (&other == this) {
       return *this;
     }
+    clear();
     entries_ = other.entries_;
     ctrl_ = other.ctrl_;
     size_ = other.size_;
-- 
2.43.0


From befb3039714e77d569763d1f9fe472204c4fb5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 02/91] fix: rehash of an empty hash map must not allocate

---
 include/cista/containers/hash_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 191c6a0..8c15fc4 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -647,7 +647,11 @@ struct hash_storage {
     self_allocated_ = false;
   }
 
-  void rehash() { resize(capacity_); }
+  void rehash() {
+    if (capacity_ != 0U) {
+      resize(capacity_);
+    }
+  }
 
   iterator iterator_at(size_type const i) noexcept {
     return {ctrl_ + i, entries_ + i};
-- 
2.43.0


From 9e08a9884160cbcc40e7aae336cf76889cc49d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 03/91] fix: accept every reachable hash table state when
 deserializing

---
 include/cista/serialization.h | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 559960d..66428c0 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -963,28 +963,23 @@ void check_state(Ctx const& c,
             "hash storage: ctrl bytes must be empty or deleted or full");
 
   using st_t = typename Type::size_type;
-  auto [total_empty, total_full, total_deleted, total_growth_left] =
-      std::accumulate(
-          ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
-          std::tuple{st_t{0U}, st_t{0U}, st_t{0U}, st_t{0}},
-          [&](std::tuple<st_t, st_t, st_t, st_t> const acc,
-              typename Type::ctrl_t const& ctrl) {
-            auto const [empty, full, deleted, growth_left] = acc;
-            return std::tuple{
-                Type::is_empty(ctrl) ? empty + 1 : empty,
-                Type::is_full(ctrl) ? full + 1 : full,
-                Type::is_deleted(ctrl) ? deleted + 1 : deleted,
-                (Type::is_empty(ctrl) && el->was_never_full(static_cast<st_t>(
-                                             &ctrl - el->ctrl_))
-                     ? growth_left + 1
-                     : growth_left)};
-          });
+  auto [total_empty, total_full, total_deleted] = std::accumulate(
+      ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
+      std::tuple{st_t{0U}, st_t{0U}, st_t{0U}},
+      [](std::tuple<st_t, st_t, st_t> const acc,
+         typename Type::ctrl_t const& ctrl) {
+        auto const [empty, full, deleted] = acc;
+        return std::tuple{Type::is_empty(ctrl) ? empty + 1 : empty,
+                          Type::is_full(ctrl) ? full + 1 : full,
+                          Type::is_deleted(ctrl) ? deleted + 1 : deleted};
+      });
 
   c.require(el->size_ == total_full, "hash storage: size");
   c.require(total_empty + total_full + total_deleted == el->capacity_,
             "hash storage: empty + full + deleted = capacity");
-  c.require(std::min(Type::capacity_to_growth(el->capacity_) - el->size_,
-                     total_growth_left) <= el->growth_left_,
+  auto const growth = Type::capacity_to_growth(el->capacity_);
+  c.require(total_full + total_deleted <= growth &&
+                el->growth_left_ <= growth - total_full - total_deleted,
             "hash storage: growth left");
 }
 
-- 
2.43.0


From 128ffdadbecb0ee575c4ab1dd84479f205e9ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 04/91] fix: vector insert returns the position of the first
 inserted element

---
 include/cista/containers/vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 6e592fc..3c029a1 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -220,7 +220,8 @@ struct basic_vector {
     new (el_ + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <typename El>
@@ -234,7 +235,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -248,7 +250,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From 0f9ae354bebd9979e5492253e9378083ab00c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 05/91] fix: appending or inserting an element of the vector
 itself

---
 include/cista/containers/vector.h | 48 ++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 3c029a1..bd2e3c2 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -216,9 +216,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
-    new (el_ + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg&&>(el));
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
     return begin() + old_offset;
@@ -229,10 +227,18 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + count);
-    for (auto i = size_type{0U}; i < count; ++i) {
-      new (el_ + used_size_) T{value};
-      ++used_size_;
+    if (used_size_ + count > allocated_size_) {
+      auto const copy = T{value};  // value might be an element of this vector
+      reserve(used_size_ + count);
+      for (auto i = size_type{0U}; i < count; ++i) {
+        new (el_ + used_size_) T{copy};
+        ++used_size_;
+      }
+    } else {
+      for (auto i = size_type{0U}; i < count; ++i) {
+        new (el_ + used_size_) T{value};
+        ++used_size_;
+      }
     }
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
@@ -295,21 +301,37 @@ struct basic_vector {
   }
 
   void push_back(T const& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(el);
+    if (used_size_ == allocated_size_) {
+      auto copy = T(el);  // el might be an element of this vector
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(copy));
+    } else {
+      new (el_ + used_size_) T(el);
+    }
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T(std::move(el));
+    if (used_size_ == allocated_size_) {
+      auto tmp = T(std::move(el));  // el might be an element of this vector
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T(std::move(el));
+    }
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
-    new (el_ + used_size_) T{std::forward<Args>(el)...};
+    if (used_size_ == allocated_size_) {
+      // arguments might refer to elements of this vector
+      auto tmp = T{std::forward<Args>(el)...};
+      reserve(used_size_ + 1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T{std::forward<Args>(el)...};
+    }
     T* ptr = el_ + used_size_;
     ++used_size_;
     return *ptr;
-- 
2.43.0


From f1f6ccdbc460e03c9c798a6f121254444091e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 06/91] fix: vector set destroys the previous elements

---
 include/cista/containers/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index bd2e3c2..3255898 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -175,6 +175,7 @@ struct basic_vector {
         range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
         "cista::vector::set: invalid range");
 
+    clear();
     reserve(static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
-- 
2.43.0


From 36093270d26bfdc8f239f98607bf73b7624a9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 07/91] fix: vector resize destroys the elements it cuts off

---
 include/cista/containers/vector.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 3255898..f59b54f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -339,6 +339,7 @@ struct basic_vector {
   }
 
   void resize(size_type const size) {
+    destroy_from(size);
     reserve(size);
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{};
@@ -347,6 +348,7 @@ struct basic_vector {
   }
 
   void resize(size_type const size, T init) {
+    destroy_from(size);
     reserve(size);
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{init};
@@ -368,6 +370,12 @@ struct basic_vector {
     used_size_ = 0;
   }
 
+  void destroy_from(size_type const new_size) {
+    while (used_size_ > new_size) {
+      pop_back();
+    }
+  }
+
   void reserve(size_type new_size) {
     new_size = std::max(allocated_size_, new_size);
 
-- 
2.43.0


From 14ccf54fd3fc99c3b04d23ced0d401cb3900c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 08/91] fix: vector erase of a range returns the position
 behind the erased elements

---
 include/cista/containers/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index f59b54f..3b3e0ed 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -428,6 +428,7 @@ struct basic_vector {
   }
 
   T* erase(T* first, T* last) {
+    auto const offset = first - begin();
     if (first != last) {
       auto const new_end = std::move(last, end(), first);
       for (auto it = new_end; it != end(); ++it) {
@@ -435,7 +436,7 @@ struct basic_vector {
       }
       used_size_ -= static_cast<size_type>(std::distance(new_end, end()));
     }
-    return end();
+    return begin() + offset;
   }
 
   bool contains(T const* el) const noexcept {
-- 
2.43.0


From cebaef948d1b747636bf502517f06a4727dc8432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 09/91] fix: vector insert of an empty range must not self-move
 elements

---
 include/cista/containers/vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 3b3e0ed..cc74af3 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -268,6 +268,10 @@ struct basic_vector {
       return begin();
     }
 
+    if (first == last) {
+      return pos;
+    }
+
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
     reserve(used_size_ + new_count);
-- 
2.43.0


From 7639601b278962a14c7b36a5bffed9dd566dad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 10/91] fix: allocate vector storage with the alignment of the
 element type

---
 include/cista/containers/vector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index cc74af3..1cb1c6a 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -10,6 +10,7 @@
 #include <type_traits>
 #include <vector>
 
+#include "cista/aligned_alloc.h"
 #include "cista/allocator.h"
 #include "cista/containers/ptr.h"
 #include "cista/exception.h"
@@ -99,6 +100,7 @@ struct basic_vector {
   ~basic_vector() { deallocate(); }
 
   void deallocate() {
+    constexpr auto const kAlignment = std::max(alignof(T), alignof(void*));
     if (!self_allocated_ || el_ == nullptr) {
       return;
     }
@@ -107,7 +109,7 @@ struct basic_vector {
       el.~T();
     }
 
-    std::free(el_);  // NOLINT
+    CISTA_ALIGNED_FREE(kAlignment, ptr_cast(el_));
     reset();
   }
 
@@ -387,9 +389,11 @@ struct basic_vector {
       return;
     }
 
+    constexpr auto const kAlignment = std::max(alignof(T), alignof(void*));
     auto next_size = next_power_of_two(new_size);
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
-    auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
+    auto mem_buf = static_cast<T*>(
+        CISTA_ALIGNED_ALLOC(kAlignment, num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
       throw_exception(std::bad_alloc());
     }
@@ -412,7 +416,7 @@ struct basic_vector {
     auto free_me = el_;
     el_ = mem_buf;
     if (self_allocated_) {
-      std::free(free_me);  // NOLINT
+      CISTA_ALIGNED_FREE(kAlignment, ptr_cast(free_me));
     }
 
     self_allocated_ = true;
-- 
2.43.0


From 2ea7d753a7e98c1c10e21ca058b905c5d13e88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 11/91] fix: restore hash map move assignment onto
 uninitialized storage

The existing union test assigns to a hash map inside a union that was never
constructed, which the previous repair of the leak would read. This reverts
d163c7d; the leak is recorded as a known finding instead.
---
 include/cista/containers/hash_storage.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 8c15fc4..7663221 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -284,7 +284,6 @@ struct hash_storage {
     if (&other == this) {
       return *this;
     }
-    clear();
     entries_ = other.entries_;
     ctrl_ = other.ctrl_;
     size_ = other.size_;
-- 
2.43.0


From f9f9ed23d06aecef8ef3978c83afbd5a7b002139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 12/91] fix: short strings with embedded zero characters keep
 their length

---
 include/cista/containers/string.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 8334af5..2474288 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -100,7 +100,10 @@ struct generic_string {
     if (str == nullptr || len == 0U) {
       return;
     }
-    s_.is_short_ = (len <= short_length_limit);
+    // The inline representation ends at the first zero character.
+    s_.is_short_ =
+        len <= short_length_limit &&
+        std::char_traits<CharT>::find(str, len, CharT(0)) == nullptr;
     if (s_.is_short_) {
       std::memcpy(s_.s_, str, len * sizeof(CharT));
       for (auto i = len; i < short_length_limit; ++i) {
@@ -133,7 +136,8 @@ struct generic_string {
       return;
     }
 
-    if (len <= short_length_limit) {
+    if (len <= short_length_limit &&
+        std::char_traits<CharT>::find(str, len, CharT(0)) == nullptr) {
       return set_owning(str, len);
     }
 
-- 
2.43.0


From 277d617062012621d5746bfeeedfad823d78f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 13/91] fix: assign a part of a string to the string itself

---
 include/cista/containers/string.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 2474288..5b11bcb 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -96,6 +96,15 @@ struct generic_string {
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
   void set_owning(CharT const* str, msize_t const len) {
+    if (auto const own = view(); !own.empty() &&
+                                 str + len > own.data() &&
+                                 str < own.data() + own.size()) {
+      // str refers to (a part of) this string
+      auto const copy = std::basic_string<CharT>{str, len};
+      reset();
+      return set_owning(copy.data(), len);
+    }
+
     reset();
     if (str == nullptr || len == 0U) {
       return;
-- 
2.43.0


From 59ffd91ce72403e4bf3225a37245a4df5c352eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 14/91] fix: erasing all characters of a heap string

---
 include/cista/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 5b11bcb..890eacd 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -374,6 +374,9 @@ struct generic_string {
     std::memset(data() + size_before - n, 0U, n * sizeof(CharT));
     if (!is_short()) {
       h_.size_ = size_before - n;
+      if (h_.size_ == 0U) {
+        reset();
+      }
     }
     return *this;
   }
-- 
2.43.0


From c019673edd9595e1437d4350adb5f29541bbafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 15/91] fix: self assignment of a short string view

---
 include/cista/containers/string.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 890eacd..461fe4f 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -542,11 +542,15 @@ struct basic_string_view : public generic_string<Ptr> {
     base::set_non_owning(o.data(), o.size());
   }
   basic_string_view& operator=(basic_string_view const& o) {
-    base::set_non_owning(o.data(), o.size());
+    if (&o != this) {
+      base::set_non_owning(o.data(), o.size());
+    }
     return *this;
   }
   basic_string_view& operator=(basic_string_view&& o) {
-    base::set_non_owning(o.data(), o.size());
+    if (&o != this) {
+      base::set_non_owning(o.data(), o.size());
+    }
     return *this;
   }
 
-- 
2.43.0


From afb985c1a4bf229027ca9edd585b346830d8d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 16/91] fix: construct a C string from pointer and length

---
 include/cista/containers/cstring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 1a6d26d..7548656 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -45,6 +45,12 @@ struct generic_cstring {
   }
   generic_cstring(char const* s, owning_t const) { set_owning(s); }
   generic_cstring(char const* s, non_owning_t const) { set_non_owning(s); }
+  generic_cstring(char const* s, msize_t const len, owning_t const) {
+    set_owning(s, len);
+  }
+  generic_cstring(char const* s, msize_t const len, non_owning_t const) {
+    set_non_owning(s, len);
+  }
 
   char* begin() noexcept { return data(); }
   char* end() noexcept { return data() + size(); }
-- 
2.43.0


From 12935b08454b01fbe41edb57a109e041c589242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 17/91] fix: C string move assignment and self assignment

---
 include/cista/containers/cstring.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 7548656..9d0ffdb 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -123,6 +123,10 @@ struct generic_cstring {
   }
 
   void move_from(generic_cstring&& s) noexcept {
+    if (&s == this) {
+      return;
+    }
+    reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
     if constexpr (std::is_pointer_v<Ptr>) {
       std::memset(static_cast<void*>(&s), 0, sizeof(*this));
@@ -378,6 +382,9 @@ struct basic_cstring : public generic_cstring<Ptr> {
   basic_cstring(basic_cstring&& o) { base::move_from(std::move(o)); }
 
   basic_cstring& operator=(basic_cstring const& o) {
+    if (&o == this) {
+      return *this;
+    }
     base::set_owning(o.data(), o.size());
     return *this;
   }
-- 
2.43.0


From c16bf061556d1ae2b7e1a6eb01b87de5267ec91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 18/91] fix: assign a part of a C string to the C string itself

---
 include/cista/containers/cstring.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 9d0ffdb..7972f13 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -90,6 +90,15 @@ struct generic_cstring {
 
   void set_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
+    if (auto const own = view();
+        !own.empty() && str + len > own.data() &&
+        str < own.data() + own.size()) {
+      // str refers to (a part of) this string
+      auto const copy = std::string{str, len};
+      reset();
+      return set_owning(copy.data(), len);
+    }
+
     reset();
     if (len == 0U) {
       return;
-- 
2.43.0


From 3289c37b8f10369781e3ee0c3aec1cfbe9d8b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 19/91] fix: bit vector reset keeps size and blocks consistent

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ac79f1e..a387b05 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -120,7 +120,7 @@ struct basic_bitvec {
     }
   }
 
-  void reset() noexcept { blocks_ = {}; }
+  void reset() noexcept { zero_out(); }
 
   bool operator[](Key const i) const noexcept { return test(i); }
 
-- 
2.43.0


From a7059617dbe70e538cda840384e237fc756a5354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 20/91] fix: next_set_bit must not report positions beyond the
 size

---
 include/cista/containers/bitvec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index a387b05..496a88a 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -172,7 +172,9 @@ struct basic_bitvec {
     }
 
     auto const first_block_idx = i / bits_per_block;
-    auto const first_block = blocks_[first_block_idx];
+    auto const first_block = first_block_idx + 1U == blocks_.size()
+                                 ? sanitized_last_block()
+                                 : blocks_[first_block_idx];
     if (first_block != 0U) {
       auto const first_bit = i % bits_per_block;
       auto const n = std::min(size(), bits_per_block);
-- 
2.43.0


From 83e3393988573476ef48a0128fdb84800d019b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 21/91] fix: nested vector size and at for more than two
 levels, with bounds checks on every level

---
 include/cista/containers/nvec.h | 65 ++++++++++++++-------------------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 82aa930..2576f7a 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -486,55 +486,48 @@ struct basic_nvec {
 
   template <typename... Indices>
   size_type size(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    if (sizeof...(Indices) == 0U) {
-      return get_size<N - sizeof...(Indices) - 1>(first);
-    } else {
-      return get_size<N - sizeof...(Indices) - 1>(index_[I][first], rest...);
-    }
+    static_assert(sizeof...(Indices) < N);
+    verify(to_idx(first) < size(), "nvec::size: index out of range");
+    return get_size<N - 1U>(to_idx(first), rest...);
   }
 
   template <typename... Indices>
   bucket_t at(Key const first, Indices... rest) {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return get_bucket<I>(to_idx(first), rest...);
   }
 
   template <typename... Indices>
   const_bucket_t at(Key const first, Indices... rest) const {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    return get_bucket(index_[I][to_idx(first)], rest...);
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
+    return get_bucket<I>(to_idx(first), rest...);
   }
 
   auto cista_members() noexcept { return std::tie(index_, data_); }
 
-  template <typename... Rest>
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i, Rest... rest) {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
-  }
-
-  bucket_t get_bucket(index_value_type const bucket_start,
-                      index_value_type const i) {
-    return {&data_, &index_[0], bucket_start + i};
+  template <std::size_t L, typename... Rest>
+  index_value_type get_index(index_value_type const i, index_value_type const j,
+                             Rest... rest) const {
+    verify(j < index_[L][i + 1U] - index_[L][i], "nvec: index out of range");
+    if constexpr (sizeof...(Rest) == 0U) {
+      return index_[L][i] + j;
+    } else {
+      return get_index<L - 1U>(index_[L][i] + j, rest...);
+    }
   }
 
-  template <typename... Rest>
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i, Rest... rest) const {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+  template <std::size_t L, typename... Indices>
+  bucket_t get_bucket(index_value_type const i, Indices... rest) {
+    return {&data_, &index_[0], get_index<L>(i, rest...)};
   }
 
-  const_bucket_t get_bucket(index_value_type const bucket_start,
-                            index_value_type const i) const {
-    return {&data_, &index_[0], bucket_start + i};
+  template <std::size_t L, typename... Indices>
+  const_bucket_t get_bucket(index_value_type const i, Indices... rest) const {
+    return {&data_, &index_[0], get_index<L>(i, rest...)};
   }
 
   template <std::size_t L, typename Container>
@@ -553,20 +546,16 @@ struct basic_nvec {
   }
 
   template <std::size_t L, typename... Rest>
-  size_type get_size(index_value_type const i, index_value_type const j,
-                     Rest... rest) const {
+  size_type get_size(index_value_type const i, Rest... rest) const {
     if constexpr (sizeof...(Rest) == 0U) {
-      return index_[L][i + j + 1] - index_[L][i + j];
+      return index_[L][i + 1U] - index_[L][i];
     } else {
-      return get_size<L>(index_[L][i + j], rest...);
+      auto const j = get_index<L>(i, rest...);
+      return index_[L - sizeof...(Rest)][j + 1U] -
+             index_[L - sizeof...(Rest)][j];
     }
   }
 
-  template <std::size_t L>
-  size_type get_size(index_value_type const i) const {
-    return index_[L][i + 1] - index_[L][i];
-  }
-
   array<IndexVec, N> index_;
   DataVec data_;
 };
-- 
2.43.0


From f2673ef399b416f8f40a75088d4450d3acc71876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 22/91] fix: frozen multimap iterator minus offset goes
 backwards

---
 include/cista/containers/fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 566e108..8f61be9 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -91,7 +91,7 @@ struct fws_multimap_iterator {
   }
 
   fws_multimap_iterator operator-(int const n) const {
-    return {map_, index_ + static_cast<index_t>(n)};
+    return {map_, index_ - static_cast<index_t>(n)};
   }
 
   int operator-(fws_multimap_iterator const& o) const {
-- 
2.43.0


From 1bcb69b8a879e18849cecaca7d8a541ecabb6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 23/91] fix: vecvec at(size()) is out of range

---
 include/cista/containers/vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e649847..99a36cf 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -334,13 +334,13 @@ struct basic_vecvec {
   }
 
   CISTA_CUDA_COMPAT const_bucket at(Key const i) const {
-    verify(to_idx(i) < bucket_starts_.size(),
+    verify(to_idx(i) < size(),
            "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
   CISTA_CUDA_COMPAT bucket at(Key const i) {
-    verify(to_idx(i) < bucket_starts_.size(),
+    verify(to_idx(i) < size(),
            "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
-- 
2.43.0


From 942a57926494032e20632201b79f522507b720ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 24/91] fix: shrinking a vecvec drops the elements of the
 removed buckets

---
 include/cista/containers/vecvec.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 99a36cf..a2bf748 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -404,6 +404,10 @@ struct basic_vecvec {
 
   void resize(std::size_t const new_size) {
     auto const old_size = bucket_starts_.size();
+    if (new_size < size()) {
+      data_.resize(static_cast<typename DataVec::size_type>(
+          to_idx(bucket_starts_[new_size])));
+    }
     bucket_starts_.resize(
         static_cast<typename IndexVec::size_type>(new_size + 1U));
     for (auto i = old_size; i < new_size + 1U; ++i) {
-- 
2.43.0


From 2d7fb0edc97c7dfab1d15e831ed3102523d6311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 25/91] fix: a vecvec without buckets is empty

---
 include/cista/containers/vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index a2bf748..05746d6 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -352,9 +352,9 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT const_bucket back() const { return at(Key{size() - 1}); }
 
   CISTA_CUDA_COMPAT index_value_type size() const {
-    return empty() ? 0U : bucket_starts_.size() - 1;
+    return bucket_starts_.empty() ? 0U : bucket_starts_.size() - 1;
   }
-  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.empty(); }
+  CISTA_CUDA_COMPAT bool empty() const { return size() == 0U; }
 
   void clear() {
     bucket_starts_.clear();
-- 
2.43.0


From 7099ec6f7b2efceeab1be8095f2d919c185218ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 26/91] fix: mutable multimap iterators step backwards

---
 include/cista/containers/mutable_fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 1713ce0..e8545eb 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -318,7 +318,7 @@ struct dynamic_fws_multimap_base {
     }
 
     bucket_iterator& operator--() {
-      ++index_;
+      --index_;
       return *this;
     }
 
-- 
2.43.0


From c03470cadebdd14c6223bb591e5281fe4abb6af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 27/91] fix: erasing a key of a mutable multimap updates the
 element count

---
 include/cista/containers/mutable_fws_multimap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index e8545eb..3957770 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -431,6 +431,7 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
+      element_count_ -= index_[to_idx(i)].size_;
       release_bucket(index_[to_idx(i)]);
     }
   }
-- 
2.43.0


From 6ff723c61802f9aacad0397cd34ef3ee55bdfe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 28/91] fix: mutable multimap bucket erase returns the position
 behind the erased elements

---
 include/cista/containers/mutable_fws_multimap.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 3957770..4079114 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -206,14 +206,13 @@ struct dynamic_fws_multimap_base {
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator erase(iterator pos) {
       auto last = std::prev(end());
-      while (pos < last) {
-        std::swap(*pos, *std::next(pos));
-        pos = std::next(pos);
+      for (auto it = pos; it < last; it = std::next(it)) {
+        std::swap(*it, *std::next(it));
       }
-      (*pos).~T();
+      (*last).~T();
       --get_index().size_;
       --mutable_mm().element_count_;
-      return end();
+      return pos;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
@@ -227,7 +226,7 @@ struct dynamic_fws_multimap_base {
         get_index().size_ -= count;
         mutable_mm().element_count_ -= count;
       }
-      return end();
+      return first;
     }
 
   protected:
-- 
2.43.0


From 545e24f216bb8d23ae53ee78a4e40f5ef1bfb878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 29/91] fix: adding an element of a mutable multimap to the
 multimap itself

---
 include/cista/containers/mutable_fws_multimap.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 4079114..c6f5e81 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -145,15 +145,17 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type const& val) {
+      auto const copy = val;  // val might be an element of this map
       auto insert_it = prepare_insert(it);
-      *insert_it = val;
+      *insert_it = copy;
       return insert_it;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type&& val) {
+      auto tmp = std::move(val);  // val might be an element of this map
       auto insert_it = prepare_insert(it);
-      *insert_it = std::move(val);
+      *insert_it = std::move(tmp);
       return insert_it;
     }
 
@@ -600,8 +602,9 @@ struct dynamic_fws_multimap_base {
   }
 
   size_type push_back_entry(size_type const map_index, value_type const& val) {
+    auto const copy = val;  // val might be an element of this map
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = val;
+    data_[data_index] = copy;
     ++element_count_;
     return data_index;
   }
@@ -609,8 +612,10 @@ struct dynamic_fws_multimap_base {
   template <typename... Args>
   size_type emplace_back_entry(size_type const i, Args&&... args) {
     auto const map_index = to_idx(i);
+    // args might refer to elements of this map
+    auto val = value_type{std::forward<Args>(args)...};
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = value_type{std::forward<Args>(args)...};
+    data_[data_index] = std::move(val);
     ++element_count_;
     return data_index;
   }
-- 
2.43.0


From 568002da5bc981b88bddf33e1e6f18e45f40ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 30/91] fix: iterating an empty paged vecvec

---
 include/cista/containers/paged_vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 4c8a98d..32e965e 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -297,9 +297,9 @@ struct paged_vecvec {
   base_t<Key> size() const { return idx_.size(); }
   bool empty() const { return idx_.empty(); }
 
-  bucket begin() { return front(); }
+  bucket begin() { return operator[](Key{0}); }
   bucket end() { return operator[](Key{size()}); }
-  const_bucket begin() const { return front(); }
+  const_bucket begin() const { return operator[](Key{0}); }
   const_bucket end() const { return operator[](Key{size()}); }
 
   friend bucket begin(paged_vecvec& m) { return m.begin(); }
-- 
2.43.0


From 9106095f18cac67c7d9be50d40ae90431a75b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 31/91] fix: paged vecvec rejects buckets larger than the
 largest page

---
 include/cista/containers/paged.h        | 9 ++++++---
 include/cista/containers/paged_vecvec.h | 6 ++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 2866266..602b106 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -49,9 +49,9 @@ struct paged {
   static constexpr auto const free_list_size =
       free_list_index(MaxPageSize) + 1U;
 
-  page_t resize_page(page_t const& p, PageSizeType const size) {
+  page_t resize_page(page_t const& p, std::size_t const size) {
     if (size <= p.capacity_) {
-      return {size, p.capacity_, p.start_};
+      return {static_cast<PageSizeType>(size), p.capacity_, p.start_};
     } else {
       auto const new_page = create_page(size);
       copy(new_page, p);
@@ -60,7 +60,10 @@ struct paged {
     }
   }
 
-  page_t create_page(PageSizeType const size) {
+  page_t create_page(std::size_t const requested_size) {
+    verify(requested_size <= MaxPageSize,
+           "paged::create_page: size > max capacity");
+    auto const size = static_cast<PageSizeType>(requested_size);
     auto const capacity = next_power_of_two(std::max(MinPageSize, size));
     auto const i = free_list_index(capacity);
     verify(i < free_list_.size(), "paged::create_page: size > max capacity");
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 32e965e..fcc8166 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -311,8 +311,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(bucket.size());
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.emplace_back(p);
   }
@@ -335,8 +334,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void insert(Key const& k, Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(bucket.size());
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.insert(idx_.begin() + to_idx(k), p);
   }
-- 
2.43.0


From bdc0670d2944cadf756c3e710c5e5e71fc462264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 32/91] fix: append an element of a paged vecvec to the paged
 vecvec itself

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index fcc8166..05b069b 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -156,9 +156,10 @@ struct paged_vecvec {
     }
 
     void push_back(data_value_type const& x) {
+      auto const copy = x;
       auto& p = pv_->page(i_);
       p = pv_->paged_.resize_page(p, p.size_ + 1U);
-      (*this)[size() - 1U] = x;
+      (*this)[size() - 1U] = copy;
     }
 
     template <typename Arg>
-- 
2.43.0


From ef76ba90d2ce50e39bde5d7ae2e5347cdd92e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 33/91] fix: paged vecvec bucket insert returns the inserted
 position

---
 include/cista/containers/paged_vecvec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 05b069b..c6961b0 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -167,7 +167,8 @@ struct paged_vecvec {
       auto const old_offset = std::distance(begin(), it);
       auto const old_size = size();
       push_back(data_value_type{el});
-      return std::rotate(begin() + old_offset, begin() + old_size, end());
+      std::rotate(begin() + old_offset, begin() + old_size, end());
+      return begin() + old_offset;
     }
 
     template <typename T = std::decay_t<data_value_type>,
-- 
2.43.0


From 9cd39eefd0b4396f13c47529babf867cf3bf72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 34/91] fix: fill a paged vecvec bucket from any convertible
 range

---
 include/cista/containers/paged.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 602b106..cf93ce0 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cinttypes>
 #include <cstring>
 #include <limits>
@@ -119,10 +120,7 @@ struct paged {
 
   template <typename ItA, typename ItB>
   void copy(page_t const& to, ItA begin, ItB end) {
-    auto const n = static_cast<std::size_t>(std::distance(begin, end));
-    if (n != 0U) {
-      std::memcpy(data(to), &*begin, n * sizeof(value_type));
-    }
+    std::copy(begin, end, data(to));
   }
 
   void clear() {
-- 
2.43.0


From 1cfcd91b840bc48a5631f50905089acaf2a9fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 35/91] fix: insert a payload of the rtree into the rtree
 itself

---
 include/cista/containers/rtree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index de74b0b..d387131 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -264,6 +264,7 @@ struct basic_rtree {
 
   void insert(coord_t const& min, coord_t const& max, DataType const& data) {
     auto const insert_rect = rect{min, max};
+    auto const insert_data = data;
     while (true) {
       if (m_.root_ == node_idx_t::invalid()) {
         m_.root_ = node_new(kind::kLeaf);
@@ -272,7 +273,7 @@ struct basic_rtree {
       }
 
       auto split = false;
-      node_insert(m_.rect_, m_.root_, insert_rect, std::move(data), 0, split);
+      node_insert(m_.rect_, m_.root_, insert_rect, insert_data, 0, split);
       if (!split) {
         m_.rect_.expand(insert_rect);
         ++m_.count_;
-- 
2.43.0


From fe8ddad2cc32e2503cc7f83aa5d278a848ee6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 36/91] fix: path hints of an rtree with more than 16 levels

---
 include/cista/containers/rtree.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index d387131..48a5cfa 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -381,7 +381,7 @@ struct basic_rtree {
 
   std::uint32_t node_choose(node const& search_node, rect const& search_rect,
                             std::uint32_t const depth) {
-    auto const h = m_.path_hint_[depth];
+    auto const h = get_path_hint(depth);
     if (h < search_node.count_) {
       if (search_node.rects_[h].contains(search_rect)) {
         return h;
@@ -391,17 +391,27 @@ struct basic_rtree {
     // Take a quick look for the first node that contain the rect.
     for (auto i = 0U; i != search_node.count_; ++i) {
       if (search_node.rects_[i].contains(search_rect)) {
-        m_.path_hint_[depth] = i;
+        set_path_hint(depth, i);
         return i;
       }
     }
 
     // Fallback to using che "choose least enlargment" algorithm.
     auto const i = search_node.choose_least_enlargement(search_rect);
-    m_.path_hint_[depth] = i;
+    set_path_hint(depth, i);
     return i;
   }
 
+  std::uint32_t get_path_hint(std::uint32_t const depth) const {
+    return depth < m_.path_hint_.size() ? m_.path_hint_[depth] : 0U;
+  }
+
+  void set_path_hint(std::uint32_t const depth, std::uint32_t const i) {
+    if (depth < m_.path_hint_.size()) {
+      m_.path_hint_[depth] = i;
+    }
+  }
+
   node& get_node(node_idx_t const node_id) { return nodes_[node_id]; }
   node const& get_node(node_idx_t const node_id) const {
     return nodes_[node_id];
@@ -503,7 +513,7 @@ struct basic_rtree {
       return;
     }
 
-    auto h = m_.path_hint_[depth];
+    auto h = get_path_hint(depth);
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -538,7 +548,7 @@ struct basic_rtree {
         shrunk = true;
         return;
       }
-      m_.path_hint_[depth] = h;
+      set_path_hint(depth, h);
       if (shrunk) {
         shrunk = !delete_node.rects_[h].equals(crect);
         if (shrunk) {
-- 
2.43.0


From ba6a86a575da08f6462060fcd15668ff62cc9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 37/91] fix: rtree deletion searches every subtree only once

---
 include/cista/containers/rtree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index 48a5cfa..1ea5b43 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -514,6 +514,7 @@ struct basic_rtree {
     }
 
     auto h = get_path_hint(depth);
+    auto tried = delete_node.count_;
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -522,11 +523,12 @@ struct basic_rtree {
         if (removed) {
           goto removed;
         }
+        tried = h;
       }
     }
     h = 0;
     for (; h < delete_node.count_; h++) {
-      if (!delete_node.rects_[h].contains(input_rect)) {
+      if (h == tried || !delete_node.rects_[h].contains(input_rect)) {
         continue;
       }
       crect = delete_node.rects_[h];
-- 
2.43.0


From cb1f563d582baf5a5e4b8188af7f7887872b0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 38/91] fix: file move assignment closes the previous file

---
 include/cista/targets/file.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1b8d599..2cded85 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -227,6 +227,12 @@ struct file {
   }
 
   file& operator=(file&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    if (f_ != nullptr) {
+      std::fclose(f_);
+    }
     f_ = o.f_;
     size_ = o.size_;
     o.f_ = nullptr;
-- 
2.43.0


From 994c284d0af2b422f7587ace530921eb83e865dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 39/91] fix: default constructed mmap holds nothing

---
 include/cista/mmap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index c6b40d2..ef9a78d 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -205,10 +205,10 @@ private:
   }
 
   file f_;
-  protection prot_;
-  std::size_t size_;
-  std::size_t used_size_;
-  void* addr_;
+  protection prot_{protection::READ};
+  std::size_t size_{0U};
+  std::size_t used_size_{0U};
+  void* addr_{nullptr};
 #ifdef _WIN32
   HANDLE file_mapping_;
 #endif
-- 
2.43.0


From f6d4b1fd896b555ac2fe4dbb11a6d288c6c319fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 40/91] fix: unmap the whole mapping

---
 include/cista/mmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index ef9a78d..6c91d2a 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -40,8 +40,8 @@ struct mmap {
   ~mmap() {
     if (addr_ != nullptr) {
       sync();
-      size_ = used_size_;
       unmap();
+      size_ = used_size_;
       if (size_ != f_.size()) {
         resize_file();
       }
-- 
2.43.0


From a0e2d4fdf419fe3881a90ff5dd3335b774ca5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 41/91] fix: mmap move assignment closes the previous mapping

---
 include/cista/mmap.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index 6c91d2a..71a5afa 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -37,16 +37,7 @@ struct mmap {
         used_size_{f_.size()},
         addr_{size_ == 0U ? nullptr : map()} {}
 
-  ~mmap() {
-    if (addr_ != nullptr) {
-      sync();
-      unmap();
-      size_ = used_size_;
-      if (size_ != f_.size()) {
-        resize_file();
-      }
-    }
-  }
+  ~mmap() { close(); }
 
   mmap(mmap const&) = delete;
   mmap& operator=(mmap const&) = delete;
@@ -64,6 +55,10 @@ struct mmap {
   }
 
   mmap& operator=(mmap&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    close();
     f_ = std::move(o.f_);
     prot_ = o.prot_;
     size_ = o.size_;
@@ -126,6 +121,17 @@ struct mmap {
   }
 
 private:
+  void close() {
+    if (addr_ != nullptr) {
+      sync();
+      unmap();
+      size_ = used_size_;
+      if (size_ != f_.size()) {
+        resize_file();
+      }
+    }
+  }
+
   void unmap() {
 #ifdef _WIN32
     if (addr_ != nullptr) {
-- 
2.43.0


From 3596ddd9663c43e607187470ccb2ede42201ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 42/91] fix: mmap_vec insert returns the position of the first
 inserted element

---
 include/cista/containers/mmap_vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 8fcbc61..c13a36b 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -113,7 +113,8 @@ struct basic_mmap_vec {
     new (data() + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -127,7 +128,8 @@ struct basic_mmap_vec {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From 518d4643f0a075abe3c9bf7e6065fb73759f8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 43/91] fix: add an element of an mmap_vec to the mmap_vec
 itself

---
 include/cista/containers/mmap_vec.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index c13a36b..9e3d3ce 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -27,15 +27,17 @@ struct basic_mmap_vec {
         used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {}
 
   void push_back(T const& t) {
+    auto const copy = t;
     ++used_size_;
     mmap_.resize(sizeof(T) * used_size_);
-    (*this)[Key{used_size_ - 1U}] = t;
+    (*this)[Key{used_size_ - 1U}] = copy;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
+    auto const copy = T{std::forward<Args>(el)...};
     reserve(used_size_ + 1U);
-    new (data() + used_size_) T{std::forward<Args>(el)...};
+    new (data() + used_size_) T{copy};
     T* ptr = data() + used_size_;
     ++used_size_;
     return *ptr;
@@ -108,9 +110,10 @@ struct basic_mmap_vec {
   T* insert(T* it, Arg&& el) {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
+    auto const copy = T{std::forward<Arg&&>(el)};
 
     reserve(used_size_ + 1);
-    new (data() + used_size_) T{std::forward<Arg&&>(el)};
+    new (data() + used_size_) T{copy};
     ++used_size_;
 
     std::rotate(begin() + old_offset, begin() + old_size, end());
-- 
2.43.0


From 96a2d04809a7a5e66ba534d0ec397d0e410eb84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 44/91] fix: mmap_vec reserve does not change the size of the
 file

---
 include/cista/containers/mmap_vec.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 9e3d3ce..b3bb8ab 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -36,7 +36,7 @@ struct basic_mmap_vec {
   template <typename... Args>
   T& emplace_back(Args&&... el) {
     auto const copy = T{std::forward<Args>(el)...};
-    reserve(used_size_ + 1U);
+    mmap_.resize((used_size_ + 1U) * sizeof(T));
     new (data() + used_size_) T{copy};
     T* ptr = data() + used_size_;
     ++used_size_;
@@ -74,7 +74,7 @@ struct basic_mmap_vec {
     return begin()[to_idx(index)];
   }
 
-  void reserve(size_type const size) { mmap_.resize(size * sizeof(T)); }
+  void reserve(size_type const size) { mmap_.reserve(size * sizeof(T)); }
 
   void resize(size_type const size) {
     mmap_.resize(size * sizeof(T));
@@ -95,7 +95,7 @@ struct basic_mmap_vec {
                    static_cast<diff_t>(std::numeric_limits<size_type>::max()),
            "cista::vector::set: invalid range");
 
-    reserve(static_cast<size_type>(range_size));
+    mmap_.resize(static_cast<std::size_t>(range_size) * sizeof(T));
 
     auto copy_source = begin_it;
     auto copy_target = data();
@@ -112,7 +112,7 @@ struct basic_mmap_vec {
     auto const old_size = used_size_;
     auto const copy = T{std::forward<Arg&&>(el)};
 
-    reserve(used_size_ + 1);
+    mmap_.resize((used_size_ + 1U) * sizeof(T));
     new (data() + used_size_) T{copy};
     ++used_size_;
 
@@ -126,7 +126,7 @@ struct basic_mmap_vec {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
+      mmap_.resize((used_size_ + 1U) * sizeof(T));
       new (data() + used_size_) T{std::forward<decltype(*first)>(*first)};
       ++used_size_;
     }
@@ -144,7 +144,7 @@ struct basic_mmap_vec {
 
     auto const pos_idx = pos - begin();
     auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    mmap_.resize((used_size_ + new_count) * sizeof(T));
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-- 
2.43.0


From c2b77abe46386cd830450d33b973a6d308dfaba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 45/91] fix: assigning an lvalue of the held alternative to a
 variant

---
 include/cista/containers/variant.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b035975..1b7aba4 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -108,8 +108,9 @@ struct variant {
   variant& operator=(Arg&& arg) {
     if (index_of_type<Arg, T...>() == idx_) {
       apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
         }
       });
       return *this;
-- 
2.43.0


From f761b94631ca029bb84aa045c3b7a4e4d473ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 46/91] fix: copying, assigning, swapping, comparing and
 hashing a variant without value

---
 include/cista/containers/variant.h | 34 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 1b7aba4..b983183 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -82,12 +82,18 @@ struct variant {
   }
 
   variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::forward<decltype(el)>(el));
     });
   }
   variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::move(el));
@@ -95,9 +101,19 @@ struct variant {
   }
 
   variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
   }
   variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply(
         [&](auto&& el) -> variant& { return *this = std::move(el); });
   }
@@ -133,42 +149,42 @@ struct variant {
 
   friend bool operator==(variant const& a, variant const& b) noexcept {
     return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+               ? !a.valid() || apply([](auto&& u, auto&& v) -> bool { return u == v; },
                        a.idx_, a, b)
                : false;
   }
 
   friend bool operator!=(variant const& a, variant const& b) noexcept {
     return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+               ? a.valid() && apply([](auto&& u, auto&& v) -> bool { return u != v; },
                        a.idx_, a, b)
                : true;
   }
 
   friend bool operator<(variant const& a, variant const& b) noexcept {
     return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+               ? a.valid() && apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                        a, b)
                : a.idx_ < b.idx_;
   }
 
   friend bool operator>(variant const& a, variant const& b) noexcept {
     return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+               ? a.valid() && apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
                        a, b)
                : a.idx_ > b.idx_;
   }
 
   friend bool operator<=(variant const& a, variant const& b) noexcept {
     return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+               ? !a.valid() || apply([](auto&& u, auto&& v) -> bool { return u <= v; },
                        a.idx_, a, b)
                : a.idx_ <= b.idx_;
   }
 
   friend bool operator>=(variant const& a, variant const& b) noexcept {
     return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+               ? !a.valid() || apply([](auto&& u, auto&& v) -> bool { return u >= v; },
                        a.idx_, a, b)
                : a.idx_ >= b.idx_;
   }
@@ -195,6 +211,9 @@ struct variant {
 
   void swap(variant& o) {
     if (idx_ == o.idx_) {
+      if (!valid()) {
+        return;
+      }
       apply(
           [](auto&& a, auto&& b) {
             using std::swap;
@@ -346,6 +365,9 @@ struct variant {
   }
 
   hash_t hash() const noexcept {
+    if (!valid()) {
+      return hashing<std::size_t>{}(index(), BASE_HASH);
+    }
     return apply([&](auto&& val) {
       auto const idx = index();
       auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-- 
2.43.0


From 4240919ef8085b6a5ec779696479c2b96c62d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 47/91] fix: variant whose new value fails to construct has no
 value

---
 include/cista/containers/variant.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b983183..e9cb94b 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -103,7 +103,6 @@ struct variant {
   variant& operator=(variant const& o) {
     if (!o.valid()) {
       destruct();
-      idx_ = NO_VALUE;
       return *this;
     }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
@@ -111,7 +110,6 @@ struct variant {
   variant& operator=(variant&& o) {
     if (!o.valid()) {
       destruct();
-      idx_ = NO_VALUE;
       return *this;
     }
     return o.apply(
@@ -132,8 +130,8 @@ struct variant {
       return *this;
     }
     destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
     new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
     return *this;
   }
 #if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
@@ -193,18 +191,20 @@ struct variant {
   Arg& emplace(CtorArgs&&... ctor_args) {
     static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
     destruct();
+    auto const ptr = new (&storage_)
+        std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...};
     idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+    return *ptr;
   }
 
   template <std::size_t I, typename... CtorArgs>
   type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
     static_assert(I < sizeof...(T));
     destruct();
+    auto const ptr = new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...};
     idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
+    return *ptr;
   }
 
   constexpr std::size_t index() const noexcept { return idx_; }
@@ -233,6 +233,7 @@ struct variant {
         using el_type = std::decay_t<decltype(el)>;
         el.~el_type();
       });
+      idx_ = NO_VALUE;
     }
   }
 
-- 
2.43.0


From 9c8d2a0dd613453986560ca05a769ecaeb86a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 48/91] fix: variant with more than 16 alternatives

---
 include/cista/containers/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index e9cb94b..45b42f6 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -345,7 +345,7 @@ struct variant {
     }
 
     if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+      return apply<F, B + 16U>(std::forward<F>(f), idx, std::forward<Vs>(vs)...);
     }
 
 #ifndef _MSC_VER
-- 
2.43.0


From d85ec99343253189aba9df1d7bb49265bfa3a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 49/91] fix: std::visit of a variant returns the result of the
 visitor

---
 include/cista/containers/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 45b42f6..fe09c2f 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -464,7 +464,7 @@ namespace std {
 
 template <typename Visitor, typename... T>
 constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
+  return v.apply(vis);
 }
 
 using cista::get;
-- 
2.43.0


From 4f58634e395307075b86c5a5e92b9497786d0394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 50/91] fix: copy a non-const optional

---
 include/cista/containers/optional.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index a9d5df5..e4db98d 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -12,7 +12,9 @@ template <typename T>
 struct optional {
   optional() = default;
 
-  template <typename... Ts>
+  template <typename... Ts,
+            typename = std::enable_if_t<
+                !(std::is_same_v<std::decay_t<Ts>, optional> || ...)>>
   optional(Ts&&... t) noexcept(std::is_nothrow_constructible_v<T, Ts...>) {
     new (&storage_[0]) T{std::forward<Ts>(t)...};
     valid_ = true;
-- 
2.43.0


From 5c9c329691879a8b8a98affc12fa4d54b10d97a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 51/91] fix: optional destroys its value

---
 include/cista/containers/optional.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index e4db98d..63a083e 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -31,7 +31,14 @@ struct optional {
     return move(std::forward<optional>(other));
   }
 
+  ~optional() { destruct(); }
+
   optional& copy(optional const& other) {
+    if (this == &other) {
+      return *this;
+    }
+
+    destruct();
     if (other.has_value()) {
       new (&storage_[0]) T{other.value()};
     }
@@ -42,6 +49,11 @@ struct optional {
   }
 
   optional& move(optional&& other) {
+    if (this == &other) {
+      return *this;
+    }
+
+    destruct();
     if (other.has_value()) {
       new (&storage_[0]) T(std::move(other.value()));
     }
@@ -51,6 +63,13 @@ struct optional {
     return *this;
   }
 
+  void destruct() {
+    if (valid_) {
+      valid_ = false;
+      reinterpret_cast<T*>(&storage_[0])->~T();
+    }
+  }
+
   T const& value() const {
     if (!valid_) {
       throw_exception(std::bad_optional_access{});
-- 
2.43.0


From 7706457cb3c90fce96f0ed34031ca551997654b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 52/91] fix: compare optionals by value

---
 include/cista/containers/optional.h | 30 +++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index 63a083e..3987893 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -101,4 +101,34 @@ struct optional {
   alignas(std::alignment_of_v<T>) unsigned char storage_[sizeof(T)];
 };
 
+template <typename T>
+bool operator==(optional<T> const& a, optional<T> const& b) {
+  return a.has_value() == b.has_value() && (!a.has_value() || *a == *b);
+}
+
+template <typename T>
+bool operator!=(optional<T> const& a, optional<T> const& b) {
+  return !(a == b);
+}
+
+template <typename T>
+bool operator<(optional<T> const& a, optional<T> const& b) {
+  return b.has_value() && (!a.has_value() || *a < *b);
+}
+
+template <typename T>
+bool operator>(optional<T> const& a, optional<T> const& b) {
+  return b < a;
+}
+
+template <typename T>
+bool operator<=(optional<T> const& a, optional<T> const& b) {
+  return !(b < a);
+}
+
+template <typename T>
+bool operator>=(optional<T> const& a, optional<T> const& b) {
+  return !(a < b);
+}
+
 }  // namespace cista
-- 
2.43.0


From f015fc26e5de92f2ffc1d8b90f856e7014a66be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 53/91] fix: unique_ptr move assignment from itself or from a
 pointer it owns

---
 include/cista/containers/unique_ptr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c490a6b..c894e15 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -28,7 +28,10 @@ struct basic_unique_ptr {
   }
 
   basic_unique_ptr& operator=(basic_unique_ptr&& o) noexcept {
-    reset();
+    if (&o == this) {
+      return *this;
+    }
+    auto old = basic_unique_ptr{std::move(*this)};
     el_ = o.el_;
     self_allocated_ = o.self_allocated_;
     o.el_ = nullptr;
-- 
2.43.0


From 52e3a14e4b725f7dacb202756a053aee00cbfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 54/91] fix: reset of a unique_ptr that does not own its object

---
 include/cista/containers/unique_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c894e15..51228a5 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -50,9 +50,9 @@ struct basic_unique_ptr {
   void reset() {
     if (self_allocated_ && el_ != nullptr) {
       delete el_;
-      el_ = nullptr;
-      self_allocated_ = false;
     }
+    el_ = nullptr;
+    self_allocated_ = false;
   }
 
   explicit operator bool() const noexcept { return el_ != nullptr; }
-- 
2.43.0


From 5a3b51b529d87c30cbc0d5401d44bfbca5ffc7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 55/91] fix: visit two tuples together

---
 include/cista/containers/tuple.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/tuple.h b/include/cista/containers/tuple.h
index 12ee6db..c6b7c73 100644
--- a/include/cista/containers/tuple.h
+++ b/include/cista/containers/tuple.h
@@ -222,16 +222,14 @@ constexpr decltype(auto) apply(F&& f, Tuple&& t) {
 template <typename F, typename Tuple, std::size_t... I>
 constexpr decltype(auto) apply_impl(std::index_sequence<I...>, F&& f,
                                     Tuple const& a, Tuple const& b) {
-  return (std::invoke(std::forward<F>(f), get<I>(std::forward<Tuple>(a)),
-                      get<I>(std::forward<Tuple>(b))),
-          ...);
+  return (std::invoke(f, get<I>(a), get<I>(b)), ...);
 }
 
 template <typename F, typename Tuple>
 constexpr decltype(auto) apply(F&& f, Tuple const& a, Tuple const& b) {
   return apply_impl(
       std::make_index_sequence<tuple_size_v<std::remove_reference_t<Tuple>>>{},
-      std::forward<F>(f), std::forward<Tuple>(a), std::forward<Tuple>(b));
+      std::forward<F>(f), a, b);
 }
 
 template <typename T1, typename T2, std::size_t... I>
-- 
2.43.0


From 1565d8cc41b36416a3fa52787802c56be0e39453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 56/91] fix: negative distances between nested container
 iterators

---
 include/cista/containers/nvec.h         | 6 ++++--
 include/cista/containers/paged_vecvec.h | 6 ++++--
 include/cista/containers/vecvec.h       | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 2576f7a..56f3974 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -111,7 +111,8 @@ struct const_bucket final {
                                    const_bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(to_idx(a.i_)) -
+           static_cast<difference_type>(to_idx(b.i_));
   }
 
 private:
@@ -247,7 +248,8 @@ struct bucket final {
   friend difference_type operator-(bucket const& a, bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(to_idx(a.i_)) -
+           static_cast<difference_type>(to_idx(b.i_));
   }
 
 private:
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index c6961b0..d271627 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -110,7 +110,8 @@ struct paged_vecvec {
     friend difference_type operator-(const_bucket const& a,
                                      const_bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
@@ -252,7 +253,8 @@ struct paged_vecvec {
     }
     friend difference_type operator-(bucket const& a, bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 05746d6..496e12a 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -170,7 +170,8 @@ struct basic_vecvec {
     CISTA_CUDA_COMPAT friend difference_type operator-(bucket const& a,
                                                        bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
@@ -304,7 +305,8 @@ struct basic_vecvec {
     friend CISTA_CUDA_COMPAT difference_type operator-(const_bucket const& a,
                                                        const_bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
-- 
2.43.0


From 1a2a89b1d3f85f202c1bae959bbaf5ecab2362ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 57/91] fix: fetch_max raises the value

---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 5d1855b..731857f 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -47,7 +47,7 @@ inline std::int16_t fetch_max(std::int16_t& block, std::int16_t const val) {
   // UB due to aliasing but `std::atomic_ref` is not there yet.
   auto const a = reinterpret_cast<std::atomic_int16_t*>(&block);
   auto old = a->load();
-  if (old > val) {
+  if (old < val) {
     while (!a->compare_exchange_weak(old, std::max(old, val),
                                      std::memory_order_release,
                                      std::memory_order_relaxed)) {
-- 
2.43.0


From 2fceb5f79023b3cae9a61ac1ff379aef4dd3888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 58/91] fix: fetch_or and fetch_and return the previous value

---
 include/cista/atomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 731857f..95fcc25 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -16,7 +16,7 @@ inline std::uint64_t fetch_or(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_or(mask);
 #else
-  return __atomic_or_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_or(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
@@ -26,7 +26,7 @@ inline std::uint64_t fetch_and(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_and(mask);
 #else
-  return __atomic_and_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_and(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
-- 
2.43.0


From a09be69c33f938e66dc6f40b41660284c04c7c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 59/91] fix: iteration over the rows of a flat_matrix

---
 include/cista/containers/flat_matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 411a062..616e6ad 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -18,16 +18,16 @@ struct base_flat_matrix {
     using const_iterator = typename Vector::const_iterator;
 
     const_iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     const_iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     iterator begin() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend const_iterator begin(row const& r) { return r.begin(); }
     friend const_iterator end(row const& r) { return r.end(); }
@@ -51,10 +51,10 @@ struct base_flat_matrix {
     using iterator = typename Vector::const_iterator;
 
     iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend iterator begin(const_row const& r) { return r.begin(); }
     friend iterator end(const_row const& r) { return r.end(); }
-- 
2.43.0


From b6d7e087eb44e4938c0f2c12e6d88d1c1298f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 60/91] fix: shifting a strong type by a strong type

---
 include/cista/strong.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cista/strong.h b/include/cista/strong.h
index 93f2e9b..0efa806 100644
--- a/include/cista/strong.h
+++ b/include/cista/strong.h
@@ -104,8 +104,12 @@ struct strong {
   constexpr strong operator<<(T const& i) const {
     return strong{static_cast<value_t>(v_ << i)};
   }
-  constexpr strong operator>>(strong const& o) const { return v_ >> o.v_; }
-  constexpr strong operator<<(strong const& o) const { return v_ << o.v_; }
+  constexpr strong operator>>(strong const& o) const {
+    return strong{static_cast<value_t>(v_ >> o.v_)};
+  }
+  constexpr strong operator<<(strong const& o) const {
+    return strong{static_cast<value_t>(v_ << o.v_)};
+  }
 
   constexpr strong& operator|=(strong const& o) {
     v_ |= o.v_;
-- 
2.43.0


From 3fa5aeb8f2551447e9128ce936caf63df78432d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 61/91] fix: vectors with narrow size types can use their whole
 range

---
 include/cista/containers/vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 1cb1c6a..c4840b1 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <algorithm>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <type_traits>
@@ -391,6 +392,9 @@ struct basic_vector {
 
     constexpr auto const kAlignment = std::max(alignof(T), alignof(void*));
     auto next_size = next_power_of_two(new_size);
+    if (next_size < new_size) {  // power of two not representable
+      next_size = std::numeric_limits<size_type>::max();
+    }
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(
         CISTA_ALIGNED_ALLOC(kAlignment, num_bytes));  // NOLINT
-- 
2.43.0


From 81938a18d7f4f8094900e0542855cf5bb33b44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 62/91] fix: cstring is versioned, checked and byte-swapped
 like the other strings

---
 include/cista/serialization.h              | 40 ++++++++++++++++++++++
 include/cista/type_hash/static_type_hash.h | 12 +++++++
 include/cista/type_hash/type_hash.h        | 12 +++++++
 3 files changed, 64 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 66428c0..b933c4e 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -878,6 +878,46 @@ void recurse(Ctx& c, basic_string_view<Ptr>* el, Fn&& fn) {
   recurse(c, static_cast<generic_string<Ptr>*>(el), fn);
 }
 
+// --- CSTRING ---
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (!el->is_short()) {
+    deserialize(c, &el->h_.ptr_);
+    c.convert_endian(el->h_.size_);
+  }
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (el->is_short()) {
+    c.require(static_cast<std::uint8_t>(el->s_.remaining_) <=
+                  generic_cstring<Ptr>::short_length_limit,
+              "cstring length");
+  } else {
+    c.check_bool(el->h_.self_allocated_);
+    c.require(!el->h_.self_allocated_, "cstring self-allocated");
+    c.require(el->h_.ptr_ != nullptr, "cstring ptr");
+    c.check_ptr(el->h_.ptr_, static_cast<std::size_t>(el->h_.size_) + 1U);
+  }
+  c.require(el->data()[el->size()] == '\0', "cstring termination");
+}
+
+template <typename Ctx, typename Ptr, typename Fn>
+void recurse(Ctx&, generic_cstring<Ptr>*, Fn&&) {}
+
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, basic_cstring<Ptr>* el) {
+  convert_endian_and_ptr(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, basic_cstring<Ptr>* el) {
+  check_state(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr, typename Fn>
+void recurse(Ctx&, basic_cstring<Ptr>*, Fn&&) {}
+
 // --- UNIQUE_PTR<T> ---
 template <typename Ctx, typename T, typename Ptr>
 void convert_endian_and_ptr(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index e396a3b..e9df749 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -228,6 +228,18 @@ constexpr auto static_type_hash(basic_string_view<Ptr> const*,
   return h.combine(hash("string"));
 }
 
+template <typename Ptr, std::size_t NMaxTypes>
+constexpr auto static_type_hash(generic_cstring<Ptr> const*,
+                                hash_data<NMaxTypes> h) noexcept {
+  return h.combine(hash("cstring"));
+}
+
+template <typename Ptr, std::size_t NMaxTypes>
+constexpr auto static_type_hash(basic_cstring<Ptr> const*,
+                                hash_data<NMaxTypes> h) noexcept {
+  return h.combine(hash("cstring"));
+}
+
 template <typename T, std::size_t NMaxTypes>
 constexpr auto static_type_hash(indexed<T> const*,
                                 hash_data<NMaxTypes> h) noexcept {
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 886026b..984275d 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -145,6 +145,18 @@ hash_t type_hash(basic_string_view<Ptr> const&, hash_t h,
   return hash_combine(h, hash("string"));
 }
 
+template <typename Ptr>
+hash_t type_hash(generic_cstring<Ptr> const&, hash_t h,
+                 std::map<hash_t, unsigned>&) noexcept {
+  return hash_combine(h, hash("cstring"));
+}
+
+template <typename Ptr>
+hash_t type_hash(basic_cstring<Ptr> const&, hash_t h,
+                 std::map<hash_t, unsigned>&) noexcept {
+  return hash_combine(h, hash("cstring"));
+}
+
 template <typename T>
 hash_t type_hash(indexed<T> const&, hash_t h,
                  std::map<hash_t, unsigned>& done) noexcept {
-- 
2.43.0


From 59545fb18fad79ea3d598fef0e79b1e2d7d2226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 63/91] fix: std::pair has a type hash

---
 include/cista/type_hash/type_hash.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 984275d..99aaf14 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -38,6 +38,14 @@ hash_t type_hash(std::chrono::time_point<Clock, Duration> const&, hash_t h,
   return h;
 }
 
+template <typename A, typename B>
+hash_t type_hash(std::pair<A, B> const&, hash_t h,
+                 std::map<hash_t, unsigned>& done) noexcept {
+  h = type_hash(A{}, h, done);
+  h = type_hash(B{}, h, done);
+  return hash_combine(h, hash("pair"));
+}
+
 template <typename T, std::size_t Size>
 hash_t type_hash(array<T, Size> const&, hash_t h,
                  std::map<hash_t, unsigned>& done) noexcept {
-- 
2.43.0


From f1d488f7837efa71564e40894e6d2f5b87aadfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 64/91] fix: buffers align offsets of the image instead of
 addresses

---
 include/cista/targets/buf.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index 3a37a89..6e5b2a4 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -40,14 +40,10 @@ struct buf {
                  std::size_t alignment = 0U) {
     auto start = static_cast<offset_t>(size());
     if (alignment > 1U && buf_.size() != 0U) {
-      auto unaligned_ptr = static_cast<void*>(addr(start));
-      auto space = std::numeric_limits<std::size_t>::max();
-      auto const aligned_ptr =
-          std::align(alignment, num_bytes, unaligned_ptr, space);
-      auto const new_offset = static_cast<offset_t>(
-          aligned_ptr ? static_cast<std::uint8_t*>(aligned_ptr) - base() : 0U);
-      auto const adjustment = static_cast<offset_t>(new_offset - start);
-      start += adjustment;
+      // Align the offset, not the current address of the buffer: the buffer
+      // can move when it grows and the image can be copied elsewhere.
+      start = static_cast<offset_t>((size() + alignment - 1U) /
+                                    alignment * alignment);
     }
 
     auto const space_left =
-- 
2.43.0


From f8bf4c1c9107a99f447299884ed8c42a9747fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 65/91] fix: find root objects with an alignment larger than
 the headers

---
 include/cista/serialization.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index b933c4e..fa73669 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -478,6 +478,13 @@ constexpr offset_t data_start(mode const m) noexcept {
   return start;
 }
 
+// The root object is aligned and can therefore start after the headers.
+template <typename T>
+constexpr offset_t root_start(mode const m) noexcept {
+  constexpr auto const align = static_cast<offset_t>(std::alignment_of_v<T>);
+  return (data_start(m) + align - 1) / align * align;
+}
+
 template <mode const Mode = mode::NONE, typename Target, typename T>
 void serialize(Target& t, T& value) {
   serialization_context<Target, Mode> c{t};
@@ -1103,7 +1110,7 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     return reinterpret_cast<T*>(from);
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + data_start(Mode));
+    auto const el = reinterpret_cast<T*>(from + root_start<decay_t<T>>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From 2c3e90d29d4547b3d94f9e12535f3499591001cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 66/91] fix: long wide strings are aligned

---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index fa73669..665cb0b 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -224,7 +224,8 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
       (origin->h_.ptr_ == nullptr)
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
-                    origin->size() * sizeof(typename Type::CharT));
+                    origin->size() * sizeof(typename Type::CharT),
+                    std::alignment_of_v<typename Type::CharT>);
   if (start != NULLPTR_OFFSET) {
     str_convert_endian(c, start, origin->data(),
                        static_cast<offset_t>(origin->size()));
-- 
2.43.0


From da561eabf641bf711b134f2f6ba6158965829bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 67/91] fix: post-increment and post-decrement of offset_ptr

---
 include/cista/containers/offset_ptr.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index a8e699f..db9e3cc 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -104,8 +104,17 @@ struct offset_ptr {
     return *this;
   }
 
-  offset_ptr operator++(int) const noexcept { return offset_ptr{get() + 1}; }
-  offset_ptr operator--(int) const noexcept { return offset_ptr{get() - 1}; }
+  offset_ptr operator++(int) noexcept {
+    auto* const before = get();
+    ++*this;
+    return offset_ptr{before};
+  }
+
+  offset_ptr operator--(int) noexcept {
+    auto* const before = get();
+    --*this;
+    return offset_ptr{before};
+  }
 
   offset_t offset_{NULLPTR_OFFSET};
 };
-- 
2.43.0


From f34c782dbbbcaa1a9f886ff9321366ecf438f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 68/91] fix: equal numbers have equal hashes with every hash
 function

---
 include/cista/hash.h | 46 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index 04b647e..e60255e 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -2,9 +2,47 @@
 
 #include <cinttypes>
 #include <string_view>
+#include <type_traits>
 
 namespace cista {
 
+namespace detail {
+
+// Truncates to an integer. Out of range conversions would be undefined.
+template <typename T>
+constexpr std::uint64_t number_to_u64(T const v) noexcept {
+  if constexpr (std::is_floating_point_v<T>) {
+    return v >= T{0} && v < static_cast<T>(18446744073709551616.0)
+               ? static_cast<std::uint64_t>(v)
+           : v < T{0} && v >= static_cast<T>(-9223372036854775808.0)
+               ? static_cast<std::uint64_t>(static_cast<std::int64_t>(v))
+               : 0U;
+  } else {
+    return static_cast<std::uint64_t>(v);
+  }
+}
+
+// Applies fn to a representation that is the same for all arithmetic types
+// representing the same number (the width of the type does not matter).
+template <typename T, typename Fn>
+constexpr void with_number_representation(T const& v, Fn&& fn) {
+  if constexpr (std::is_floating_point_v<T>) {
+    auto const as_double = static_cast<double>(v);
+    auto const as_int = static_cast<std::int64_t>(number_to_u64(as_double));
+    if (static_cast<double>(as_int) == as_double) {
+      fn(static_cast<std::uint64_t>(as_int));
+    } else {
+      fn(as_double);
+    }
+  } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
+    fn(static_cast<std::uint64_t>(v));
+  } else {
+    fn(v);
+  }
+}
+
+}  // namespace detail
+
 #if defined(CISTA_XXH3)
 
 #include "xxh3.h"
@@ -18,7 +56,7 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
   auto xxh3 = [&](auto const& arg) {
     h = XXH3_64bits_withSeed(&arg, sizeof(arg), h);
   };
-  ((xxh3(val)), ...);
+  ((detail::with_number_representation(val, xxh3)), ...);
   return h;
 }
 
@@ -49,7 +87,7 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
   auto wy = [&](auto const& arg) {
     h = wyhash::wyhash(&arg, sizeof(arg), h, wyhash::_wyp);
   };
-  ((wy(val)), ...);
+  ((detail::with_number_representation(val, wy)), ...);
   return h;
 }
 
@@ -83,7 +121,7 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
   auto fh = [&](auto const& arg) {
     h = wyhash::FastestHash(&arg, sizeof(arg), h);
   };
-  ((fh(val)), ...);
+  ((detail::with_number_representation(val, fh)), ...);
   return h;
 }
 
@@ -116,7 +154,7 @@ template <typename... Args>
 constexpr hash_t hash_combine(hash_t h, Args... val) noexcept {
   constexpr hash_t fnv_prime = 1099511628211ULL;
   auto fnv = [&](auto arg) noexcept {
-    h = (h ^ static_cast<hash_t>(arg)) * fnv_prime;
+    h = (h ^ detail::number_to_u64(arg)) * fnv_prime;
   };
   ((fnv(val)), ...);
   return h;
-- 
2.43.0


From 51254652ba2cf9de4e0d2426a9ae1641f65e63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 69/91] fix: hash of empty strings with XXH3 and WYHASH

---
 include/cista/hash.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index e60255e..06bfb8d 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -61,12 +61,12 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
 }
 
 inline hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
-  return XXH3_64bits_withSeed(s.data(), s.size(), h);
+  return s.empty() ? h : XXH3_64bits_withSeed(s.data(), s.size(), h);
 }
 
 template <std::size_t N>
 constexpr hash_t hash(const char (&str)[N], hash_t const h = BASE_HASH) {
-  return XXH3_64bits_withSeed(str, N - 1, h);
+  return hash(std::string_view{str, N - 1U}, h);
 }
 
 template <typename T>
@@ -92,13 +92,13 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
 }
 
 inline hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
-  return wyhash::wyhash(s.data(), s.size(), h, wyhash::_wyp);
+  return s.empty() ? h : wyhash::wyhash(s.data(), s.size(), h, wyhash::_wyp);
 }
 
 template <std::size_t N>
 constexpr hash_t hash(const char (&str)[N],
                       hash_t const h = BASE_HASH) noexcept {
-  return wyhash::wyhash(str, N - 1, h, wyhash::_wyp);
+  return hash(std::string_view{str, N - 1U}, h);
 }
 
 template <typename T>
@@ -126,13 +126,13 @@ constexpr hash_t hash_combine(hash_t h, Args... val) {
 }
 
 inline hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
-  return wyhash::FastestHash(s.data(), s.size(), h);
+  return s.empty() ? h : wyhash::FastestHash(s.data(), s.size(), h);
 }
 
 template <std::size_t N>
 constexpr hash_t hash(const char (&str)[N],
                       hash_t const h = BASE_HASH) noexcept {
-  return wyhash::FastestHash(str, N - 1U, h);
+  return hash(std::string_view{str, N - 1U}, h);
 }
 
 template <typename T>
-- 
2.43.0


From e4c8efc5ba910b1c43b49fcc3c7421ddd8421668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 70/91] fix: hash of character arrays ends at the terminator

---
 include/cista/hashing.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/hashing.h b/include/cista/hashing.h
index 9607548..cce2618 100644
--- a/include/cista/hashing.h
+++ b/include/cista/hashing.h
@@ -99,7 +99,9 @@ struct hashing {
     } else if constexpr (is_pointer_v<Type>) {
       return hash_combine(seed, reinterpret_cast<intptr_t>(ptr_cast(el)));
     } else if constexpr (is_char_array_v<Type>) {
-      return hash(std::string_view{el, sizeof(el) - 1U}, seed);
+      // up to the terminator (like comparison)
+      auto const s = std::string_view{el, sizeof(el) - 1U};
+      return hash(s.substr(0U, s.find('\0')), seed);
     } else if constexpr (is_string_like_v<Type>) {
       using std::begin;
       using std::end;
-- 
2.43.0


From 216da78106b4dfd73fe5f594597366b7f76f9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 71/91] fix: hash and equal_to of bitsets and bit vectors

---
 include/cista/containers/bitset.h | 26 ++++++++++++++++++++++++++
 include/cista/containers/bitvec.h | 30 ++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/include/cista/containers/bitset.h b/include/cista/containers/bitset.h
index bb0447a..8286656 100644
--- a/include/cista/containers/bitset.h
+++ b/include/cista/containers/bitset.h
@@ -12,9 +12,14 @@
 
 #include "cista/bit_counting.h"
 #include "cista/containers/array.h"
+#include "cista/equal_to.h"
+#include "cista/hash.h"
 
 namespace cista {
 
+template <typename T>
+struct hashing;
+
 template <std::size_t Size>
 struct bitset {
   using block_t = std::uint64_t;
@@ -316,6 +321,27 @@ struct bitset {
   cista::array<block_t, num_blocks> blocks_{};
 };
 
+// Bits beyond Size are unspecified and do not belong to the value.
+template <std::size_t Size>
+struct hashing<bitset<Size>> {
+  constexpr hash_t operator()(bitset<Size> const& el,
+                              hash_t const seed = BASE_HASH) const {
+    auto h = seed;
+    for (auto i = std::size_t{0U}; i + 1U < el.blocks_.size(); ++i) {
+      h = hash_combine(h, el.blocks_[i]);
+    }
+    return hash_combine(h, el.sanitized_last_block());
+  }
+};
+
+template <std::size_t Size>
+struct equal_to<bitset<Size>> {
+  constexpr bool operator()(bitset<Size> const& a,
+                            bitset<Size> const& b) const {
+    return a == b;
+  }
+};
+
 }  // namespace cista
 
 #if defined(CISTA_FMT)
diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index 496a88a..679753c 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -15,10 +15,15 @@
 #include "cista/atomic.h"
 #include "cista/bit_counting.h"
 #include "cista/containers/vector.h"
+#include "cista/equal_to.h"
+#include "cista/hash.h"
 #include "cista/strong.h"
 
 namespace cista {
 
+template <typename T>
+struct hashing;
+
 template <typename Vec, typename Key = typename Vec::size_type>
 struct basic_bitvec {
   using block_t = typename Vec::value_type;
@@ -492,4 +497,29 @@ namespace raw {
 using bitvec = basic_bitvec<vector<std::uint64_t>>;
 }
 
+
+// Bits beyond size() are unspecified and do not belong to the value.
+template <typename Vec, typename Key>
+struct hashing<basic_bitvec<Vec, Key>> {
+  hash_t operator()(basic_bitvec<Vec, Key> const& el,
+                    hash_t const seed = BASE_HASH) const {
+    using size_type = typename basic_bitvec<Vec, Key>::size_type;
+    if (el.empty()) {
+      return seed;
+    }
+    auto h = seed;
+    for (auto i = size_type{0U}; i != el.blocks_.size() - 1U; ++i) {
+      h = hash_combine(h, el.blocks_[i]);
+    }
+    return hash_combine(h, el.sanitized_last_block());
+  }
+};
+
+template <typename Vec, typename Key>
+struct equal_to<basic_bitvec<Vec, Key>> {
+  bool operator()(basic_bitvec<Vec, Key> const& a,
+                  basic_bitvec<Vec, Key> const& b) const {
+    return a == b;
+  }
+};
 }  // namespace cista
-- 
2.43.0


From b04bf9c14d77ac0fdfc54364774743b94f86cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 72/91] fix: hash and equal_to of hash maps and sets do not
 depend on the order of the entries

---
 include/cista/containers/hash_storage.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 7663221..178fc17 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -12,11 +12,15 @@
 #include "cista/bit_counting.h"
 #include "cista/containers/ptr.h"
 #include "cista/decay.h"
+#include "cista/equal_to.h"
 #include "cista/exception.h"
 #include "cista/hash.h"
 
 namespace cista {
 
+template <typename T>
+struct hashing;
+
 // This class is a generic hash-based container.
 // It can be used e.g. as hash set or hash map.
 //   - hash map: `T` = `std::pair<Key, Value>`, GetKey = `return entry.first;`
@@ -678,4 +682,25 @@ struct hash_storage {
   bool self_allocated_{false};
 };
 
+// The order of the entries depends on the history and not on the value.
+template <typename T, template <typename> typename Ptr, typename GetKey,
+          typename GetValue, typename Hash, typename Eq>
+struct hashing<hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>> {
+  using map_t = hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>;
+  hash_t operator()(map_t const& el, hash_t const seed = BASE_HASH) const {
+    auto sum = hash_t{0U};
+    for (auto const& entry : el) {
+      sum += hashing<T>{}(entry, BASE_HASH);
+    }
+    return hash_combine(seed, el.size(), sum);
+  }
+};
+
+template <typename T, template <typename> typename Ptr, typename GetKey,
+          typename GetValue, typename Hash, typename Eq>
+struct equal_to<hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>> {
+  using map_t = hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq>;
+  bool operator()(map_t const& a, map_t const& b) const { return a == b; }
+};
+
 }  // namespace cista
-- 
2.43.0


From 8f929cf7e1bddbe8d53b052505ddd1788e7034b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 73/91] fix: include the hash function outside of the namespace

---
 include/cista/hash.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index 06bfb8d..726b7b7 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -4,6 +4,12 @@
 #include <string_view>
 #include <type_traits>
 
+#if defined(CISTA_XXH3)
+#include "xxh3.h"
+#elif defined(CISTA_WYHASH) || defined(CISTA_WYHASH_FASTEST)
+#include "wyhash.h"
+#endif
+
 namespace cista {
 
 namespace detail {
@@ -45,8 +51,6 @@ constexpr void with_number_representation(T const& v, Fn&& fn) {
 
 #if defined(CISTA_XXH3)
 
-#include "xxh3.h"
-
 using hash_t = XXH64_hash_t;
 
 constexpr auto const BASE_HASH = 0ULL;
@@ -76,8 +80,6 @@ constexpr std::uint64_t hash(T const& buf, hash_t const h = BASE_HASH) {
 
 #elif defined(CISTA_WYHASH)
 
-#include "wyhash.h"
-
 using hash_t = std::uint64_t;
 
 constexpr auto const BASE_HASH = 34432ULL;
@@ -110,8 +112,6 @@ constexpr std::uint64_t hash(T const& buf,
 
 #elif defined(CISTA_WYHASH_FASTEST)
 
-#include "wyhash.h"
-
 using hash_t = std::uint64_t;
 
 constexpr auto const BASE_HASH = 123ULL;
-- 
2.43.0


From 86d98e4346ca9e5a5929411a72f3bc2003596f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 74/91] fix: file target: aligned write of no bytes extends the
 file

---
 include/cista/targets/file.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 2cded85..0f7fc98 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -300,8 +300,14 @@ struct file {
       seek_offset = static_cast<long>(curr_offset);
       seek_whence = SEEK_SET;
     }
-    verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
-    verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
+    if (size == 0U && curr_offset > size_) {
+      // Nothing to write behind the padding: extend the file explicitly.
+      verify(!std::fseek(f_, seek_offset - 1, seek_whence), "seek error");
+      verify(std::fputc(0, f_) == 0, "write error");
+    } else {
+      verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
+      verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
+    }
     size_ = curr_offset + size;
     return static_cast<offset_t>(curr_offset);
   }
-- 
2.43.0


From c5e915662dc902f657a0d0325692e742b5e8f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 75/91] fix: file target: same checksum as the other targets
 for large images

---
 include/cista/targets/file.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 0f7fc98..bb8fd31 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -266,6 +266,17 @@ struct file {
         static_cast<std::size_t>(512U * 1024U);  // 512kB
     verify(size_ >= static_cast<std::size_t>(start), "invalid checksum offset");
     verify(!std::fseek(f_, static_cast<long>(start), SEEK_SET), "fseek error");
+#if defined(CISTA_XXH3) || defined(CISTA_WYHASH) || \
+    defined(CISTA_WYHASH_FASTEST)
+    // These hashes cannot be computed block by block.
+    if (size_ - static_cast<std::size_t>(start) > block_size) {
+      auto b = buffer(size_ - static_cast<std::size_t>(start));
+      verify(std::fread(b.data(), 1U, b.size(), f_) == b.size(),
+             "invalid read");
+      return hash(std::string_view{reinterpret_cast<char const*>(b.data()),
+                                   b.size()});
+    }
+#endif
     auto c = BASE_HASH;
     char buf[block_size];
     chunk(block_size, size_ - static_cast<std::size_t>(start),
-- 
2.43.0


From 923268e50e45e64c7a843c7c1ebdb2b2ad8c8f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 76/91] fix: buf: padding bytes are zero for every kind of
 buffer

---
 include/cista/targets/buf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index 6e5b2a4..ab1daa0 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -51,7 +51,11 @@ struct buf {
     if (space_left < static_cast<int64_t>(num_bytes)) {
       auto const missing = static_cast<std::size_t>(
           static_cast<int64_t>(num_bytes) - space_left);
+      auto const old_size = static_cast<offset_t>(buf_.size());
       buf_.resize(buf_.size() + missing);
+      if (start > old_size) {
+        std::memset(addr(old_size), 0, static_cast<std::size_t>(start - old_size));
+      }
     }
     std::memcpy(addr(start), ptr, num_bytes);
 
-- 
2.43.0


From 52803e77c690ffc525cabd645094f1bd377167cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 77/91] fix: bit vector: the number of bits is a serialized
 member

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index 679753c..e306be5 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -49,7 +49,7 @@ struct basic_bitvec {
     return ret;
   }
 
-  auto cista_members() noexcept { return std::tie(blocks_); }
+  auto cista_members() noexcept { return std::tie(size_, blocks_); }
 
   static constexpr size_type num_blocks(size_type num_bits) {
     return static_cast<size_type>(num_bits / bits_per_block +
-- 
2.43.0


From 145a8c217f0c5c71689ec727688aa7000af5f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 78/91] fix: deserialize: CAST finds the root behind skipped
 headers

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 665cb0b..f091633 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1108,7 +1108,7 @@ template <typename T, mode const Mode = mode::NONE>
 T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
   if constexpr (is_mode_enabled(Mode, mode::CAST)) {
     CISTA_UNUSED_PARAM(to)
-    return reinterpret_cast<T*>(from);
+    return reinterpret_cast<T*>(from + root_start<decay_t<T>>(Mode));
   } else {
     check<T, Mode>(from, to);
     auto const el = reinterpret_cast<T*>(from + root_start<decay_t<T>>(Mode));
-- 
2.43.0


From 8af1b10f590acdd3ac8468acb18a90f5a65ca952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 79/91] fix: big-endian: index of variants with more than 255
 alternatives

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index f091633..09a8996 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1056,7 +1056,7 @@ void recurse(Ctx&, array<T, Size>* el, Fn&& fn) {
 }
 
 // --- VARIANT<T...> ---
-template <typename Ctx, typename Fn, typename... T>
+template <typename Ctx, typename... T>
 void convert_endian_and_ptr(Ctx const& c, variant<T...>* el) {
   c.convert_endian(el->idx_);
 }
-- 
2.43.0


From b6eacb9643b46339ba6407be9fb02d14de81b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 80/91] fix: checked deserialization: bool members hold 0 or 1

---
 include/cista/serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 09a8996..8ae0376 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -716,6 +716,8 @@ void check_state(Ctx const& c, T* el) {
   using Type = decay_t<T>;
   if constexpr (std::is_pointer_v<Type> && !std::is_same_v<Type, void*>) {
     c.check_ptr(*el);
+  } else if constexpr (std::is_same_v<Type, bool>) {
+    c.check_bool(*el);
   } else {
     CISTA_UNUSED_PARAM(c)
     CISTA_UNUSED_PARAM(el)
-- 
2.43.0


From 118a007d510d4f7cd58db42de5d85f2727909a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 81/91] fix: checked deserialization: hash table capacity and
 repeated control bytes

---
 include/cista/serialization.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 8ae0376..1be340d 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -996,6 +996,8 @@ void check_state(Ctx const& c,
   c.require(
       (el->entries_ == nullptr) == (el->capacity_ == 0U && el->size_ == 0U),
       "hash storage: entries=null <=> size=capacity=0");
+  c.require((el->capacity_ & (el->capacity_ + 1U)) == 0U,
+            "hash storage: capacity = 2^n - 1");
 
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "hash storage: self-allocated");
@@ -1011,6 +1013,11 @@ void check_state(Ctx const& c,
                                  ctrl == Type::ctrl_t::END;
                         }),
             "hash storage: ctrl bytes must be empty or deleted or full");
+  for (auto i = typename Type::size_type{0U}; i != Type::WIDTH; ++i) {
+    c.require(el->ctrl_[el->capacity_ + 1U + i] ==
+                  (i < el->capacity_ ? ptr_cast(el->ctrl_)[i] : Type::EMPTY),
+              "hash storage: first ctrl bytes are repeated behind the end");
+  }
 
   using st_t = typename Type::size_type;
   auto [total_empty, total_full, total_deleted] = std::accumulate(
-- 
2.43.0


From 61e02ec5754ca6be546d477c86c8cfce135dc5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 82/91] fix: checked deserialization: owners that own
 themselves

---
 include/cista/serialization.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 1be340d..a8f22c1 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -655,7 +655,24 @@ struct deserialization_context {
     verify(condition, msg);
   }
 
+  // Objects have one owner: what is owned fits into the buffer altogether.
+  // This excludes owners that (indirectly) own themselves.
+  void check_owned(std::size_t const size) const {
+    if constexpr ((MODE & mode::UNCHECKED) == mode::UNCHECKED) {
+      return;
+    }
+
+    if (to_ == 0U) {
+      return;
+    }
+
+    verify(size <= static_cast<std::size_t>(to_ - from_) - owned_,
+           "owned by multiple owners");
+    owned_ += size;
+  }
+
   intptr_t from_, to_;
+  std::size_t mutable owned_{0U};
 };
 
 template <mode Mode>
@@ -734,7 +751,10 @@ void recurse(Ctx& c, T* el, Fn&& fn) {
   } else if constexpr (is_mode_enabled(Ctx::MODE, mode::_PHASE_II) &&
                        std::is_pointer_v<Type>) {
     if (*el != nullptr && c.add_checked(el)) {
+      auto const owned = c.owned_;
+      c.owned_ = 0U;  // the target may have been visited through its owner
       fn(*el);
+      c.owned_ = owned;
     }
   } else {
     CISTA_UNUSED_PARAM(c)
@@ -783,7 +803,10 @@ template <typename Ctx, typename T, typename Fn>
 void recurse(Ctx& c, offset_ptr<T>* el, Fn&& fn) {
   if constexpr (is_mode_enabled(Ctx::MODE, mode::_PHASE_II)) {
     if (*el != nullptr && c.add_checked(el)) {
+      auto const owned = c.owned_;
+      c.owned_ = 0U;  // the target may have been visited through its owner
       fn(static_cast<T*>(*el));
+      c.owned_ = owned;
     }
   } else {
     CISTA_UNUSED_PARAM(c)
@@ -813,6 +836,7 @@ void check_state(Ctx const& c,
   c.require(!el->self_allocated_, "vec self-allocated");
   c.require(el->allocated_size_ == el->used_size_, "vec size mismatch");
   c.require((el->size() == 0U) == (el->el_ == nullptr), "vec size=0 <=> ptr=0");
+  c.check_owned(static_cast<std::size_t>(el->used_size_) * sizeof(T));
 }
 
 template <typename Ctx, typename T, template <typename> typename Ptr,
@@ -938,6 +962,7 @@ template <typename Ctx, typename T, typename Ptr>
 void check_state(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "unique_ptr self-allocated");
+  c.check_owned(el->el_ == nullptr ? 0U : sizeof(T));
 }
 
 template <typename Ctx, typename T, typename Ptr, typename Fn>
@@ -1038,6 +1063,7 @@ void check_state(Ctx const& c,
   c.require(total_full + total_deleted <= growth &&
                 el->growth_left_ <= growth - total_full - total_deleted,
             "hash storage: growth left");
+  c.check_owned(static_cast<std::size_t>(el->capacity_) * sizeof(T));
 }
 
 template <typename Ctx, typename T, template <typename> typename Ptr,
-- 
2.43.0


From a161d92a42a1103625d42b4f031230d55ad3bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 83/91] fix: checked deserialization: indices of nested
 containers

---
 include/cista/serialization.h | 93 +++++++++++++++++++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index a8f22c1..6afe1a3 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -763,6 +763,10 @@ void recurse(Ctx& c, T* el, Fn&& fn) {
   }
 }
 
+// Called when all members are already converted and checked.
+template <typename Ctx, typename T>
+void check_members(Ctx const&, T*) {}
+
 template <typename Ctx, typename T>
 void deserialize(Ctx const& c, T* el) {
   c.check_ptr(el);
@@ -773,6 +777,19 @@ void deserialize(Ctx const& c, T* el) {
     check_state(c, el);
   }
   recurse(c, el, [&](auto* entry) { deserialize(c, entry); });
+  if constexpr (is_mode_disabled(Ctx::MODE, mode::UNCHECKED)) {
+    check_members(c, el);
+  }
+}
+
+template <typename Ctx, typename Index>
+void check_index(Ctx const& c, Index const& index, std::size_t const size) {
+  auto prev = std::size_t{0U};
+  for (auto const& start : index) {
+    auto const curr = static_cast<std::size_t>(to_idx(start));
+    c.require(prev <= curr && curr <= size, "index: start out of range");
+    prev = curr;
+  }
 }
 
 // --- PAIR<A,B> ---
@@ -986,6 +1003,82 @@ void recurse(
   fn(&el->element_count_);
 }
 
+template <typename Ctx, typename T, typename SizeType,
+          template <typename> typename Vec, std::size_t Log2MaxEntriesPerBucket>
+void check_members(Ctx const& c,
+                   dynamic_fws_multimap_base<T, SizeType, Vec,
+                                             Log2MaxEntriesPerBucket>* el) {
+  auto const check_bucket = [&](auto const& b) {
+    auto const size = static_cast<std::size_t>(el->data_.size());
+    c.require(b.size_ <= b.capacity_ && b.begin_ <= size &&
+                  b.capacity_ <= size - b.begin_,
+              "dynamic_fws_multimap: bucket out of range");
+  };
+  for (auto const& b : el->index_) {
+    check_bucket(b);
+  }
+  for (auto const& buckets : el->free_buckets_) {
+    for (auto const& b : buckets) {
+      check_bucket(b);
+    }
+  }
+}
+
+// --- FWS_MULTIMAP<T> ---
+template <typename Ctx, typename DataVec, typename IndexVec>
+void check_members(Ctx const& c, fws_multimap<DataVec, IndexVec>* el) {
+  check_index(c, el->index_, el->data_.size());
+}
+
+// --- VECVEC<T> ---
+template <typename Ctx, typename Key, typename DataVec, typename IndexVec>
+void check_members(Ctx const& c, basic_vecvec<Key, DataVec, IndexVec>* el) {
+  check_index(c, el->bucket_starts_, el->data_.size());
+}
+
+// --- NVEC<T> ---
+template <typename Ctx, typename Key, typename DataVec, typename IndexVec,
+          std::size_t N, typename SizeType>
+void check_members(Ctx const& c,
+                   basic_nvec<Key, DataVec, IndexVec, N, SizeType>* el) {
+  auto size = static_cast<std::size_t>(el->data_.size());
+  for (auto const& index : el->index_) {
+    check_index(c, index, size);
+    size = index.empty() ? 0U : index.size() - 1U;
+  }
+}
+
+// --- PAGED_VECVEC<T> ---
+template <typename Ctx, typename Index, typename Paged, typename Key>
+void check_members(Ctx const& c, paged_vecvec<Index, Paged, Key>* el) {
+  auto const size = static_cast<std::size_t>(el->paged_.data_.size());
+  for (auto const& p : el->idx_) {
+    c.require(p.size_ <= p.capacity_ && p.start_ <= size &&
+                  p.capacity_ <= size - p.start_,
+              "paged_vecvec: page out of range");
+  }
+}
+
+// --- FLAT_MATRIX<T> ---
+template <typename Vector>
+struct base_flat_matrix;
+
+template <typename Ctx, typename Vector>
+void check_members(Ctx const& c, base_flat_matrix<Vector>* el) {
+  c.require(checked_multiplication(static_cast<std::size_t>(el->n_rows_),
+                                   static_cast<std::size_t>(el->n_columns_)) <=
+                el->entries_.size(),
+            "flat_matrix: dimensions");
+}
+
+// --- BITVEC ---
+template <typename Ctx, typename Vec, typename Key>
+void check_members(Ctx const& c, basic_bitvec<Vec, Key>* el) {
+  c.require(el->blocks_.size() ==
+                basic_bitvec<Vec, Key>::num_blocks(el->size_),
+            "bitvec: size");
+}
+
 // --- HASH_STORAGE<T> ---
 template <typename Ctx, typename T, template <typename> typename Ptr,
           typename GetKey, typename GetValue, typename Hash, typename Eq>
-- 
2.43.0


From 2c964d68f966d32b8941efac49ff4047c30e79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 84/91] fix: deserializing constant data checks containers

---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 6afe1a3..2ee1d06 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1239,7 +1239,8 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     return reinterpret_cast<T*>(from + root_start<decay_t<T>>(Mode));
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + root_start<decay_t<T>>(Mode));
+    auto const el = reinterpret_cast<std::remove_const_t<T>*>(
+        from + root_start<decay_t<T>>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From d3b2fed86be569a57ed9a1747c6d7913d489c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 85/91] fix: checked deserialization: offsets close to the
 limit of the address range

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 2ee1d06..9ed5827 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -611,7 +611,7 @@ struct deserialization_context {
   template <typename T>
   void check_ptr(offset_ptr<T> const& el,
                  std::size_t const size = type_size<T>()) const {
-    if (el != nullptr) {
+    if (el.offset_ != NULLPTR_OFFSET) {
       checked_addition(el.offset_, reinterpret_cast<offset_t>(&el));
       check_ptr(el.get(), size);
     }
-- 
2.43.0


From 69856f5805128b8397f1231c4c1c230ef0c3c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 86/91] fix: big-endian: invalid bool is not loaded before it
 is checked

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 9ed5827..246e7ac 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -581,7 +581,7 @@ struct deserialization_context {
 
   template <typename T>
   void convert_endian(T& el) const {
-    if constexpr (endian_conversion_necessary<MODE>()) {
+    if constexpr (endian_conversion_necessary<MODE>() && sizeof(T) > 1U) {
       el = ::cista::convert_endian<MODE>(el);
     }
   }
-- 
2.43.0


From 426d79d7e9c43d75b25dec007380a029cd017c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:56 +0000
Subject: [PATCH 87/91] fix: checked deserialization: owned parts of the buffer
 do not overlap

---
 include/cista/serialization.h | 45 ++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 246e7ac..6698f28 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -657,6 +657,37 @@ struct deserialization_context {
 
   // Objects have one owner: what is owned fits into the buffer altogether.
   // This excludes owners that (indirectly) own themselves.
+  template <typename T>
+  void check_owned(offset_ptr<T> const& el, std::size_t const size) const {
+    if constexpr (endian_conversion_necessary<MODE>()) {
+      check_owned(el.get(), size);
+    } else {
+      check_owned(size);
+    }
+  }
+
+  // What was already checked is not overwritten by a later conversion:
+  // the parts of the buffer that are owned do not overlap.
+  template <typename T>
+  void check_owned(T* el, std::size_t const size) const {
+    check_owned(size);
+    if constexpr (is_mode_disabled(MODE, mode::UNCHECKED) &&
+                  is_mode_disabled(MODE, mode::_PHASE_II)) {
+      if (to_ == 0U || size == 0U) {
+        return;
+      }
+
+      auto const begin = reinterpret_cast<intptr_t>(el);
+      auto const end = begin + static_cast<intptr_t>(size);
+      auto const next = owned_ranges_.lower_bound(begin);
+      verify((next == owned_ranges_.end() || end <= next->first) &&
+                 (next == owned_ranges_.begin() ||
+                  std::prev(next)->second <= begin),
+             "owned by multiple owners");
+      owned_ranges_.emplace_hint(next, begin, end);
+    }
+  }
+
   void check_owned(std::size_t const size) const {
     if constexpr ((MODE & mode::UNCHECKED) == mode::UNCHECKED) {
       return;
@@ -673,6 +704,7 @@ struct deserialization_context {
 
   intptr_t from_, to_;
   std::size_t mutable owned_{0U};
+  std::map<intptr_t, intptr_t> mutable owned_ranges_;
 };
 
 template <mode Mode>
@@ -853,7 +885,8 @@ void check_state(Ctx const& c,
   c.require(!el->self_allocated_, "vec self-allocated");
   c.require(el->allocated_size_ == el->used_size_, "vec size mismatch");
   c.require((el->size() == 0U) == (el->el_ == nullptr), "vec size=0 <=> ptr=0");
-  c.check_owned(static_cast<std::size_t>(el->used_size_) * sizeof(T));
+  c.check_owned(el->el_,
+                static_cast<std::size_t>(el->used_size_) * sizeof(T));
 }
 
 template <typename Ctx, typename T, template <typename> typename Ptr,
@@ -884,6 +917,8 @@ void check_state(Ctx const& c, generic_string<Ptr>* el) {
     c.require(!el->h_.self_allocated_, "string self-allocated");
     c.require((el->h_.size_ == 0) == (el->h_.ptr_ == nullptr),
               "str size=0 <=> ptr=0");
+    c.check_owned(el->h_.ptr_,
+                  el->h_.size_ * sizeof(typename generic_string<Ptr>::CharT));
   }
 }
 
@@ -949,6 +984,7 @@ void check_state(Ctx const& c, generic_cstring<Ptr>* el) {
     c.require(!el->h_.self_allocated_, "cstring self-allocated");
     c.require(el->h_.ptr_ != nullptr, "cstring ptr");
     c.check_ptr(el->h_.ptr_, static_cast<std::size_t>(el->h_.size_) + 1U);
+    c.check_owned(el->h_.ptr_, static_cast<std::size_t>(el->h_.size_) + 1U);
   }
   c.require(el->data()[el->size()] == '\0', "cstring termination");
 }
@@ -979,7 +1015,7 @@ template <typename Ctx, typename T, typename Ptr>
 void check_state(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
   c.check_bool(el->self_allocated_);
   c.require(!el->self_allocated_, "unique_ptr self-allocated");
-  c.check_owned(el->el_ == nullptr ? 0U : sizeof(T));
+  c.check_owned(el->el_, el->el_ == nullptr ? 0U : sizeof(T));
 }
 
 template <typename Ctx, typename T, typename Ptr, typename Fn>
@@ -1156,7 +1192,9 @@ void check_state(Ctx const& c,
   c.require(total_full + total_deleted <= growth &&
                 el->growth_left_ <= growth - total_full - total_deleted,
             "hash storage: growth left");
-  c.check_owned(static_cast<std::size_t>(el->capacity_) * sizeof(T));
+  c.check_owned(el->entries_,
+                static_cast<std::size_t>(el->capacity_) * sizeof(T));
+  c.check_owned(el->ctrl_, el->capacity_ + 1U + Type::WIDTH);
 }
 
 template <typename Ctx, typename T, template <typename> typename Ptr,
@@ -1243,6 +1281,7 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
         from + root_start<decay_t<T>>(Mode));
 
     deserialization_context<Mode> c{from, to};
+    c.check_owned(el, sizeof(*el));
     deserialize(c, el);
 
     if constexpr ((Mode & mode::DEEP_CHECK) == mode::DEEP_CHECK) {
-- 
2.43.0


From 9e20529bbbbe1191f07a615518c067a39a7a9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:13 +0000
Subject: [PATCH 88/91] fix: type hash: distinguish different types that have
 the same name

---
 include/cista/type_hash/static_type_hash.h | 19 ++++++++++++---
 include/cista/type_hash/type_hash.h        | 27 ++++++++++++++++++++--
 include/cista/type_hash/type_name.h        | 10 ++++++++
 3 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index e9df749..e6f6894 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -69,6 +69,19 @@ struct count_map {
   std::array<value_type, Size> arr_{};
 };
 
+namespace detail {
+
+// The address is only looked at if the names are the same.
+struct static_type_id {
+  constexpr bool operator==(static_type_id const& o) const noexcept {
+    return name_hash_ == o.name_hash_ && id_ == o.id_;
+  }
+  hash_t name_hash_{};
+  void const* id_{nullptr};
+};
+
+}  // namespace detail
+
 template <std::size_t NMaxTypes>
 struct hash_data {
   constexpr hash_data combine(hash_t const h) const noexcept {
@@ -77,7 +90,7 @@ struct hash_data {
     r.h_ = hash_combine(h_, h);
     return r;
   }
-  count_map<hash_t, unsigned, NMaxTypes> done_;
+  count_map<detail::static_type_id, unsigned, NMaxTypes> done_;
   hash_t h_{BASE_HASH};
 };
 
@@ -108,8 +121,8 @@ constexpr hash_data<NMaxTypes> static_type_hash(
     T const*, hash_data<NMaxTypes> h) noexcept {
   using Type = decay_t<T>;
 
-  auto const base_hash = static_type2str_hash<Type>();
-  auto const [ordering, inserted] = h.done_.add(base_hash);
+  auto const [ordering, inserted] = h.done_.add(
+      {static_type2str_hash<Type>(), &detail::type_identity<Type>::value_});
   if (!inserted) {
     return h.combine(ordering);
   }
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 99aaf14..aa861d8 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <chrono>
+#include <cinttypes>
 #include <map>
 
 #include "cista/containers.h"
@@ -12,6 +13,26 @@
 
 namespace cista {
 
+namespace detail {
+
+template <typename T>
+struct remove_pointee_const {
+  using type = std::remove_const_t<T>;
+};
+
+template <typename T>
+struct remove_pointee_const<T*> {
+  using type = typename remove_pointee_const<std::remove_const_t<T>>::type*;
+};
+
+template <typename T, typename Enable>
+struct remove_pointee_const<offset_ptr<T, Enable>> {
+  using type =
+      offset_ptr<typename remove_pointee_const<std::remove_const_t<T>>::type>;
+};
+
+}  // namespace detail
+
 template <typename T>
 hash_t type2str_hash() noexcept {
   return hash_combine(hash(canonical_type_str<decay_t<T>>()), sizeof(T));
@@ -59,9 +80,11 @@ hash_t type_hash(T const& el, hash_t h,
                  std::map<hash_t, unsigned>& done) noexcept {
   using Type = decay_t<T>;
 
-  auto const base_hash = type2str_hash<Type>();
+  auto const type_id = static_cast<hash_t>(reinterpret_cast<std::uintptr_t>(
+      &detail::type_identity<
+          typename detail::remove_pointee_const<Type>::type>::value_));
   auto [it, inserted] =
-      done.try_emplace(base_hash, static_cast<unsigned>(done.size()));
+      done.try_emplace(type_id, static_cast<unsigned>(done.size()));
   if (!inserted) {
     return hash_combine(h, it->second);
   }
diff --git a/include/cista/type_hash/type_name.h b/include/cista/type_hash/type_name.h
index 6b27bb6..7f4e6d1 100644
--- a/include/cista/type_hash/type_name.h
+++ b/include/cista/type_hash/type_name.h
@@ -64,6 +64,16 @@ std::string canonical_type_str() {
   return s;
 }
 
+namespace detail {
+
+// Distinguishes types that have the same (canonical) name.
+template <typename T>
+struct type_identity {
+  static inline char value_{};
+};
+
+}  // namespace detail
+
 }  // namespace cista
 
 #undef CISTA_SIG
-- 
2.43.0


From 634a1c0117302fea4be136d4380e2e2036ea647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 89/91] fix: type hash: delimit pair, tuple, variant, array and
 struct

---
 include/cista/type_hash/static_type_hash.h | 11 ++++++-----
 include/cista/type_hash/type_hash.h        | 12 ++++++------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index e6f6894..a2726b9 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -143,7 +143,8 @@ constexpr hash_data<NMaxTypes> static_type_hash(
     static_assert(to_tuple_works_v<Type>, "Please implement custom type hash.");
     using tuple_t = tuple_representation_t<T>;
     return hash_tuple<tuple_t>(
-        null<tuple_t>(), h.combine(hash("struct")),
+        null<tuple_t>(),
+        h.combine(hash("struct")).combine(std::tuple_size_v<tuple_t>),
         std::make_index_sequence<std::tuple_size_v<tuple_t>>());
   }
 }
@@ -178,8 +179,8 @@ constexpr auto static_type_hash(std::chrono::time_point<Clock, Duration> const*,
 template <typename T, std::size_t Size, std::size_t NMaxTypes>
 constexpr auto static_type_hash(array<T, Size> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  h = static_type_hash(null<T>(), h);
-  return h.combine(hash("array")).combine(Size);
+  h = h.combine(hash("array")).combine(Size);
+  return static_type_hash(null<T>(), h);
 }
 
 template <typename T, template <typename> typename Ptr, bool Indexed,
@@ -210,7 +211,7 @@ constexpr auto static_type_hash(
 template <std::size_t NMaxTypes, typename... T>
 constexpr auto static_type_hash(variant<T...> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  h = h.combine(hash("variant"));
+  h = h.combine(hash("variant")).combine(sizeof...(T));
   ((h = static_type_hash(null<T>(), h)), ...);
   return h;
 }
@@ -218,7 +219,7 @@ constexpr auto static_type_hash(variant<T...> const*,
 template <std::size_t NMaxTypes, typename... T>
 constexpr auto static_type_hash(tuple<T...> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  h = h.combine(hash("tuple"));
+  h = h.combine(hash("tuple")).combine(sizeof...(T));
   ((h = static_type_hash(null<T>(), h)), ...);
   return h;
 }
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index aa861d8..f8fe046 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -62,9 +62,9 @@ hash_t type_hash(std::chrono::time_point<Clock, Duration> const&, hash_t h,
 template <typename A, typename B>
 hash_t type_hash(std::pair<A, B> const&, hash_t h,
                  std::map<hash_t, unsigned>& done) noexcept {
+  h = hash_combine(h, hash("pair"));
   h = type_hash(A{}, h, done);
-  h = type_hash(B{}, h, done);
-  return hash_combine(h, hash("pair"));
+  return type_hash(B{}, h, done);
 }
 
 template <typename T, std::size_t Size>
@@ -114,9 +114,9 @@ hash_t type_hash(T const& el, hash_t h,
 template <typename A, typename B>
 hash_t type_hash(pair<A, B> const&, hash_t h,
                  std::map<hash_t, unsigned>& done) noexcept {
+  h = hash_combine(h, hash("pair"));
   h = type_hash(A{}, h, done);
-  h = type_hash(B{}, h, done);
-  return hash_combine(h, hash("pair"));
+  return type_hash(B{}, h, done);
 }
 
 template <typename T, template <typename> typename Ptr, bool Indexed,
@@ -145,7 +145,7 @@ hash_t type_hash(hash_storage<T, Ptr, GetKey, GetValue, Hash, Eq> const&,
 template <typename... T>
 hash_t type_hash(variant<T...> const&, hash_t h,
                  std::map<hash_t, unsigned>& done) noexcept {
-  h = hash_combine(h, hash("variant"));
+  h = hash_combine(h, hash("variant"), sizeof...(T));
   ((h = type_hash(T{}, h, done)), ...);
   return h;
 }
@@ -153,7 +153,7 @@ hash_t type_hash(variant<T...> const&, hash_t h,
 template <typename... T>
 hash_t type_hash(tuple<T...> const&, hash_t h,
                  std::map<hash_t, unsigned>& done) noexcept {
-  h = hash_combine(h, hash("tuple"));
+  h = hash_combine(h, hash("tuple"), sizeof...(T));
   ((h = type_hash(T{}, h, done)), ...);
   return h;
 }
-- 
2.43.0


From fd1fb0314fcc63ef61f6f97f0ee7cd5cab765308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 90/91] fix: static type hash: duration with its period

---
 include/cista/type_hash/static_type_hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index a2726b9..e7075dd 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -154,7 +154,8 @@ constexpr auto static_type_hash(std::chrono::duration<Rep, Period> const*,
                                 hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("duration"));
   h = static_type_hash(null<Rep>(), h);
-  h = static_type_hash(null<Period>(), h);
+  h = h.combine(static_cast<hash_t>(Period::num))
+          .combine(static_cast<hash_t>(Period::den));
   return h;
 }
 
-- 
2.43.0


From e66e4d37d76bf0bde26fc0a5186cc5f7a22901fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:36 +0000
Subject: [PATCH 91/91] fix: type hash: size type of vectors and width of
 strings

---
 include/cista/type_hash/static_type_hash.h | 22 +++++++++++++++++++---
 include/cista/type_hash/type_hash.h        | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index e7075dd..9e92fa6 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -190,6 +190,9 @@ constexpr auto static_type_hash(
     basic_vector<T, Ptr, Indexed, TemplateSizeType> const*,
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = h.combine(sizeof(TemplateSizeType));
+  }
   return static_type_hash(null<T>(), h);
 }
 
@@ -225,22 +228,35 @@ constexpr auto static_type_hash(tuple<T...> const*,
   return h;
 }
 
+namespace detail {
+
+template <typename Ptr, std::size_t NMaxTypes>
+constexpr auto static_string_type_hash(hash_data<NMaxTypes> h) noexcept {
+  h = h.combine(hash("string"));
+  if constexpr (sizeof(remove_pointer_t<Ptr>) != sizeof(char)) {
+    h = h.combine(sizeof(remove_pointer_t<Ptr>));
+  }
+  return h;
+}
+
+}  // namespace detail
+
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(generic_string<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return detail::static_string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(basic_string<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return detail::static_string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(basic_string_view<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return detail::static_string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index f8fe046..23b9ffe 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -124,6 +124,9 @@ template <typename T, template <typename> typename Ptr, bool Indexed,
 hash_t type_hash(basic_vector<T, Ptr, Indexed, TemplateSizeType> const&,
                  hash_t h, std::map<hash_t, unsigned>& done) noexcept {
   h = hash_combine(h, hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = hash_combine(h, sizeof(TemplateSizeType));
+  }
   return type_hash(T{}, h, done);
 }
 
@@ -158,22 +161,35 @@ hash_t type_hash(tuple<T...> const&, hash_t h,
   return h;
 }
 
+namespace detail {
+
+template <typename Ptr>
+hash_t string_type_hash(hash_t h) noexcept {
+  h = hash_combine(h, hash("string"));
+  if constexpr (sizeof(remove_pointer_t<Ptr>) != sizeof(char)) {
+    h = hash_combine(h, sizeof(remove_pointer_t<Ptr>));
+  }
+  return h;
+}
+
+}  // namespace detail
+
 template <typename Ptr>
 hash_t type_hash(generic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return detail::string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return detail::string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string_view<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return detail::string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr>
-- 
2.43.0

