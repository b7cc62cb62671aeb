From 0bfc529754217289d3404da657bceb17230f8d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 01/59] fix: generator reports exceptions of its coroutine to
 the consumer

---
 include/soro/utls/coroutine/generator.h | 28 ++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/coroutine/generator.h b/include/soro/utls/coroutine/generator.h
index 9b41d6e..620bd2d 100644
--- a/include/soro/utls/coroutine/generator.h
+++ b/include/soro/utls/coroutine/generator.h
@@ -57,7 +57,13 @@ public:
   }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() const {
+    if (exception_ != nullptr) {
+      std::rethrow_exception(exception_);
+    }
+  }
 
   reference_type value() const noexcept {
     return static_cast<reference_type>(*value_);
@@ -69,6 +75,7 @@ public:
 
 private:
   pointer_type value_{nullptr};
+  std::exception_ptr exception_{nullptr};
 };
 
 template <typename T, bool IsConst>
@@ -113,6 +120,9 @@ struct generator_iterator {
 
   generator_iterator& operator++() {
     coroutine_.resume();
+    if (coroutine_.done()) {
+      coroutine_.promise().rethrow_if_exception();
+    }
     return *this;
   }
 
@@ -147,8 +157,14 @@ struct [[nodiscard]] generator {
     }
   }
 
-  iterator begin() noexcept { return iterator{coroutine_}; }
-  const_iterator begin() const noexcept { return const_iterator{coroutine_}; }
+  iterator begin() {
+    rethrow_if_failed();
+    return iterator{coroutine_};
+  }
+  const_iterator begin() const {
+    rethrow_if_failed();
+    return const_iterator{coroutine_};
+  }
 
   iterator end() noexcept { return {}; }
   const_iterator end() const noexcept { return {}; }
@@ -159,6 +175,12 @@ private:
   explicit generator(coro::coroutine_handle<promise_type> coroutine) noexcept
       : coroutine_(coroutine) {}
 
+  void rethrow_if_failed() const {
+    if (coroutine_ && coroutine_.done()) {
+      coroutine_.promise().rethrow_if_exception();
+    }
+  }
+
   coro::coroutine_handle<promise_type> coroutine_;
 };
 
-- 
2.43.0


From 227d9bdfb3241d9075a52649456b49179808dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 02/59] fix: recursive_generator rethrows exceptions of nested
 generators that fail before their first yield

---
 include/soro/utls/coroutine/recursive_generator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/soro/utls/coroutine/recursive_generator.h b/include/soro/utls/coroutine/recursive_generator.h
index b08d48a..608c0fb 100644
--- a/include/soro/utls/coroutine/recursive_generator.h
+++ b/include/soro/utls/coroutine/recursive_generator.h
@@ -64,7 +64,10 @@ public:
 
         awaitable(promise_type* childPromise) : m_childPromise(childPromise) {}
 
-        bool await_ready() noexcept { return this->m_childPromise == nullptr; }
+        bool await_ready() noexcept {
+          return this->m_childPromise == nullptr ||
+                 this->m_childPromise->is_complete();
+        }
 
         void await_suspend(coro::coroutine_handle<promise_type>) noexcept {}
 
@@ -88,7 +91,10 @@ public:
           return awaitable{generator.m_promise};
         }
 
+        // the child might have failed before its first yield, the awaitable
+        // needs to rethrow its exception
         m_root->m_parentOrLeaf = this;
+        return awaitable{generator.m_promise};
       }
 
       return awaitable{nullptr};
-- 
2.43.0


From 48f57671941ef94f229a6a448b720853fadac53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 03/59] fix: coro_it is move only, copies destroyed the
 coroutine twice

---
 include/soro/utls/coroutine/iterator.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/soro/utls/coroutine/iterator.h b/include/soro/utls/coroutine/iterator.h
index 6b6592f..aa626ca 100644
--- a/include/soro/utls/coroutine/iterator.h
+++ b/include/soro/utls/coroutine/iterator.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <utility>
+
 #include "soro/utls/coroutine/coro_namespace.h"
 
 namespace soro::utls {
@@ -98,6 +100,17 @@ struct coro_it {
   coro_it(co_handle_t co_handle) noexcept  // NO LINT
       : co_handle_{std::move(co_handle)} {}
 
+  coro_it(coro_it const&) = delete;
+  coro_it& operator=(coro_it const&) = delete;
+
+  coro_it(coro_it&& o) noexcept
+      : co_handle_{std::exchange(o.co_handle_, nullptr)} {}
+
+  coro_it& operator=(coro_it&& o) noexcept {
+    std::swap(co_handle_, o.co_handle_);
+    return *this;
+  }
+
   ~coro_it() {
     if (co_handle_) {
       co_handle_.destroy();
-- 
2.43.0


From 539de3cc35d20f18c07f0eb46f86258349698c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 04/59] fix: integer parse errors quote only the given input,
 not past its end

---
 include/soro/utls/parse_int.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/soro/utls/parse_int.h b/include/soro/utls/parse_int.h
index 6089b0d..05dc6c0 100644
--- a/include/soro/utls/parse_int.h
+++ b/include/soro/utls/parse_int.h
@@ -25,13 +25,15 @@ template <std::integral T>
   if (success.ec != std::errc{}) {
     return utls::unexpected(success.ec,
                             "error {} while parsing integer input {}",
-                            success.ec, std::quoted(start));
+                            success.ec,
+                            std::quoted(std::string_view{start, end}));
   }
 
   if (success.ptr != end) {
     return utls::unexpected(std::errc::invalid_argument,
                             "error {} while parsing integer input {}",
-                            std::errc::invalid_argument, std::quoted(start));
+                            std::errc::invalid_argument,
+                            std::quoted(std::string_view{start, end}));
   }
 
   return val;
@@ -43,10 +45,11 @@ template <std::integral T>
   auto const [success, val] = parse_int_impl<T>(start, end);
 
   utls::sassert(success.ec == std::errc{},
-                "Error while parsing integer input {}.", std::quoted(start));
+                "Error while parsing integer input {}.",
+                std::quoted(std::string_view{start, end}));
 
   utls::sassert(success.ptr == end, "Error while parsing integer input {}.",
-                std::quoted(start));
+                std::quoted(std::string_view{start, end}));
 
   return val;
 }
-- 
2.43.0


From 35eb9ec8c86e24d1a852a37c838c4980bfee2e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 05/59] fix: floating point parse errors quote only the given
 input and free their buffer

---
 include/soro/utls/parse_fp.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/include/soro/utls/parse_fp.h b/include/soro/utls/parse_fp.h
index 59576ec..f949668 100644
--- a/include/soro/utls/parse_fp.h
+++ b/include/soro/utls/parse_fp.h
@@ -35,10 +35,10 @@ constexpr T parse_fp(const char* const start, const char* const end) {
   auto const [ptr, ec] = std::from_chars(start, end, result);
 
   sassert(ec == std::errc{}, "Error while parsing floating point input {}.",
-          std::quoted(start));
+          std::quoted(std::string_view{start, end}));
 
   sassert(ptr == end, "Error while parsing floating point input {}.",
-          std::quoted(start));
+          std::quoted(std::string_view{start, end}));
 
 #endif
 
@@ -50,19 +50,14 @@ constexpr T parse_fp(const char* const start, const char* const end) {
 template <typename T, replace_comma ReplaceComma = OFF>
 constexpr T parse_fp(const char* const start, std::size_t const len) {
   if constexpr (ReplaceComma) {
-    char* tmp = new char[len + 1];
-    memcpy(tmp, start, len);
-    tmp[len] = '\0';
+    std::string tmp(start, len);
+    std::replace(tmp.begin(), tmp.end(), ',', '.');
 
-    std::replace(tmp, tmp + len, ',', '.');
-    auto const result = detail::parse_fp<T>(tmp, tmp + len);
-    delete[] tmp;
-
-    return result;
+    return detail::parse_fp<T>(tmp.data(), tmp.data() + len);
   } else {
     sassert(!detail::contains_char(start, start + len, ','),
             "Input string {} contains a comma, but ReplaceComma is Off",
-            std::quoted(start));
+            std::quoted(std::string_view{start, len}));
 
     return detail::parse_fp<T>(start, start + len);
   }
-- 
2.43.0


From c76af1082b9a323175621864939d54d35767d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 06/59] fix: comparing string views does not rely on null
 terminated data

---
 include/soro/utls/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/string.h b/include/soro/utls/string.h
index ed7a5c3..b6030b5 100644
--- a/include/soro/utls/string.h
+++ b/include/soro/utls/string.h
@@ -44,15 +44,15 @@ inline bool equal(char const* const s1, soro::string const& s2) {
 }
 
 inline bool equal(soro::string_view s1, char const* const s2) {
-  return equal(s1.data(), s2);
+  return s1 == soro::string_view{s2};
 }
 
 inline bool equal(char const* const s1, soro::string_view s2) {
-  return equal(s1, s2.data());
+  return soro::string_view{s1} == s2;
 }
 
 inline bool equal(soro::string_view const& s1, soro::string_view const& s2) {
-  return equal(s1.data(), s2.data());
+  return s1 == s2;
 }
 
 inline bool starts_with(char const* const str, char const* const prfx) {
-- 
2.43.0


From bd3b96ffc66c6da22e7a1b4ddc4cdddd0e1b79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 07/59] fix: graph traversal does not visit the start node's
 edges twice when it lies on a cycle

---
 include/soro/utls/graph/traversal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/soro/utls/graph/traversal.h b/include/soro/utls/graph/traversal.h
index c1229f3..5c9f43e 100644
--- a/include/soro/utls/graph/traversal.h
+++ b/include/soro/utls/graph/traversal.h
@@ -28,6 +28,7 @@ inline void graph_traversal(Node const start, GetNeighbours&& get_neighbours,
   Todo q;
   cista::raw::hash_set<Node> seen;
 
+  seen.emplace(start);
   q.emplace(std::pair{start, start});
 
   while (!q.empty()) {
-- 
2.43.0


From 4f7ccdb025a74b80119526d8bc7146d5ad5025ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 08/59] fix: priority_queue::emplace forwards any number of
 constructor arguments

---
 include/soro/utls/container/priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/utls/container/priority_queue.h b/include/soro/utls/container/priority_queue.h
index d5f83cf..1c8261f 100644
--- a/include/soro/utls/container/priority_queue.h
+++ b/include/soro/utls/container/priority_queue.h
@@ -20,7 +20,7 @@ struct priority_queue {
 
   template <typename... Args>
   void emplace(Args&&... args) {
-    mem_.emplace_back(std::forward<Args...>(args...));
+    mem_.emplace_back(std::forward<Args>(args)...);
     std::push_heap(std::begin(mem_), std::end(mem_), comp_fn_);
   }
 
-- 
2.43.0


From c1d769e5598c75d30df6a33e2a0fa6b2fbabc7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 09/59] fix: strong_type arithmetic does not modify its left
 operand

---
 include/soro/utls/strong_types/strong_type.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/soro/utls/strong_types/strong_type.h b/include/soro/utls/strong_types/strong_type.h
index b6b4646..68f09a9 100644
--- a/include/soro/utls/strong_types/strong_type.h
+++ b/include/soro/utls/strong_types/strong_type.h
@@ -15,7 +15,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator+(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator+(strong_type lhs, strong_type const& rhs) {
     lhs += rhs;
     return lhs;
   }
@@ -25,7 +25,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator-(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator-(strong_type lhs, strong_type const& rhs) {
     lhs -= rhs;
     return lhs;
   }
@@ -35,7 +35,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator*(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator*(strong_type lhs, strong_type const& rhs) {
     lhs *= rhs;
     return lhs;
   }
@@ -45,7 +45,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator/(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator/(strong_type lhs, strong_type const& rhs) {
     lhs /= rhs;
     return lhs;
   }
-- 
2.43.0


From 02975e916fa725d4ef75067e6f688ad12507c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 10/59] fix: id_iterator random access arithmetic returns an
 iterator of the same container

---
 include/soro/utls/container/id_iterator.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/container/id_iterator.h b/include/soro/utls/container/id_iterator.h
index c1e93e4..d049a56 100644
--- a/include/soro/utls/container/id_iterator.h
+++ b/include/soro/utls/container/id_iterator.h
@@ -94,11 +94,16 @@ struct id_iterator {
     return *this;
   }
 
-  id_iterator operator+(difference_type const d) const { return it_ + d; }
-  id_iterator operator-(difference_type const d) const { return it_ - d; }
+  id_iterator operator+(difference_type const d) const {
+    return {it_ + d, c_};
+  }
+
+  id_iterator operator-(difference_type const d) const {
+    return {it_ - d, c_};
+  }
 
   friend id_iterator operator+(difference_type const d, id_iterator const& it) {
-    return id_iterator{.it_ = it.it_ + d, .c_ = it.c_};
+    return it + d;
   }
 
   difference_type operator-(id_iterator const& o) const { return it_ - o.it_; }
-- 
2.43.0


From 4bcb661142365596409fb59abb885d35e7582de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 11/59] fix: optional::swap exchanges the values

---
 include/soro/utls/container/optional.h | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/include/soro/utls/container/optional.h b/include/soro/utls/container/optional.h
index db1cec9..867699c 100644
--- a/include/soro/utls/container/optional.h
+++ b/include/soro/utls/container/optional.h
@@ -134,19 +134,7 @@ struct optional {
     return or_else(else_function);
   }
 
-  void swap(optional& other) noexcept {
-    if (has_value() && !other.has_value()) {
-      other = this->val_;
-      this->reset();
-    } else if (!has_value() && other.has_value()) {
-      this->val_ = other.value();
-      other.reset();
-    } else if (has_value() && other.has_value()) {
-      auto const tmp = this->value();
-      this->val_ = other.value();
-      other = tmp;
-    }
-  }
+  void swap(optional& other) noexcept { std::swap(val_, other.val_); }
 
 #if !defined(SERIALIZE)
 private:
-- 
2.43.0


From 523071a7857b40706022276bd187e5edfa15ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 12/59] fix: two empty exclusion sets compare equivalent

---
 src/infrastructure/exclusion/exclusion_set.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 08e1b6b..d3fbe6c 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -276,7 +276,11 @@ exclusion_set exclusion_set::operator|(exclusion_set const& other) const {
 }
 
 std::partial_ordering exclusion_set::compare(exclusion_set const& other) const {
-  if (this->empty() && !other.empty()) {
+  if (this == &other || (this->empty() && other.empty())) {
+    return std::partial_ordering::equivalent;
+  }
+
+  if (this->empty()) {
     return std::partial_ordering::less;
   }
 
@@ -284,10 +288,6 @@ std::partial_ordering exclusion_set::compare(exclusion_set const& other) const {
     return std::partial_ordering::greater;
   }
 
-  if (this == &other) {
-    return std::partial_ordering::equivalent;
-  }
-
   if (this->first_ == other.first_ && this->last_ == other.last_) {
     return contains_impl_same_size(*this, other);
   }
-- 
2.43.0


From b418c3420ab3d14adea1a68cc3986e51b0d16e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 13/59] fix: inserting into an empty exclusion set

---
 src/infrastructure/exclusion/exclusion_set.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index d3fbe6c..ec3b9c2 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -157,7 +157,13 @@ bool exclusion_set::operator[](exclusion_set::value_type const idx) const {
 }
 
 void exclusion_set::set(value_type const idx) {
-  if (idx < first_) {
+  if (this->empty()) {
+    first_ = (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block;
+    last_ = first_ + bitvec_t::bits_per_block - 1;
+    first_bit_set_ = idx;
+    last_bit_set_ = idx;
+    bits_.resize(bitvec_t::bits_per_block);
+  } else if (idx < first_) {
     lower_first(this,
                 (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block);
   } else if (idx > last_) {
-- 
2.43.0


From 82385e096c0e834f257b5f72430afc6a3df4a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 14/59] fix: decay_t removes const of references to const

---
 include/soro/utls/template/decay.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/utls/template/decay.h b/include/soro/utls/template/decay.h
index 7d00eab..070682c 100644
--- a/include/soro/utls/template/decay.h
+++ b/include/soro/utls/template/decay.h
@@ -5,6 +5,6 @@
 namespace soro::utls {
 
 template <typename T>
-using decay_t = std::remove_reference_t<std::remove_const_t<T>>;
+using decay_t = std::remove_const_t<std::remove_reference_t<T>>;
 
 }  // namespace soro::utls
-- 
2.43.0


From ae053ff2f583790394fb578d6e587497618ec8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 15/59] fix: compare the set days of bitfields with different
 ranges

bitfield::equivalent() discarded the result of the shift and compared the
range limits, so only identical bitfields were ever equivalent.
---
 src/timetable/bitfield.cc | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index 377fe9f..fbd7c66 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -189,15 +189,7 @@ bool bitfield::equivalent(bitfield const& o) const noexcept {
     return true;
   }
 
-  if (this->first_date_ < o.first_date_) {
-    auto copy = o;
-    copy.bitset_ >> distance(this->first_date_, o.first_date_);
-    return *this == copy;
-  } else {
-    auto copy = *this;
-    copy.bitset_ >> distance(o.first_date_, this->first_date_);
-    return copy == o;
-  }
+  return this->get_set_days() == o.get_set_days();
 }
 
 bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept {
-- 
2.43.0


From f0fbddc4b1d06074825f64f80722987fe1c54912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 16/59] fix: grow distributions to the front

dpd::insert() built the grown vector, dropped it and then wrote to a negative
index: inserting a value below the first one was out of bounds.
---
 include/soro/simulation/dpd.h | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index 9f0cf99..23987d9 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -127,15 +127,10 @@ struct dpd<Granularity, T> {
     }
 
     if (granular < first_) {
-      auto diff = (first_ - granular) / granularity;
-      std::vector<probability_t> new_dpd(dpd_.size() + size_t{diff});
-      for (soro::size_t idx = 0; idx < new_dpd.size(); ++idx) {
-        if (static_cast<soro::size_t>(diff) < idx) {
-          new_dpd[idx] = 0.0F;
-        } else {
-          new_dpd[idx + size_t{diff}] = dpd_[idx];
-        }
-      }
+      auto const diff =
+          static_cast<std::size_t>((first_ - granular) / granularity);
+      dpd_.insert(std::begin(dpd_), diff, probability_t{0.0F});
+      first_ = granular;
     }
 
     auto const idx = to_idx(head);
@@ -197,14 +192,8 @@ struct dpd<Granularity, T, Ts...> {
     if (granular < first_) {
       auto const diff =
           static_cast<std::size_t>(((first_ - granular) / granularity).t_);
-      container_t new_dpds(dpd_.size() + diff);
-      for (auto idx = 0U; idx < new_dpds.size(); ++idx) {
-        if (idx < diff) {
-          new_dpds[idx] = {};
-        } else {
-          new_dpds[idx] = std::move(dpd_[idx]);
-        }
-      }
+      dpd_.insert(std::begin(dpd_), diff, inner_dpd_t{});
+      first_ = granular;
     }
 
     auto const idx = to_idx(head);
-- 
2.43.0


From cc5bd8206705d9773d8907317c60eea762f2a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 17/59] fix: report the speeds that were inserted into a
 distribution

iterate() was off by one granularity step for every speed.
---
 include/soro/simulation/dpd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index 23987d9..bc7e160 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -246,7 +246,7 @@ utls::generator<std::tuple<
           dpd.first_ +
           dpd.get_granularity() * soro::utls::unixtime{static_cast<time_t>(p1)};
       auto const speed =
-          m2.first_ + m2.get_granularity() + kilometer_per_hour{p2};
+          m2.first_ + kilometer_per_hour{m2.get_granularity().km_h_ * p2};
 
       co_yield std::tuple{time, speed, prob};
     }
-- 
2.43.0


From 7227419c8287e603394651033fb09c1786737bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 18/59] fix: distance between distribution iterators, element
 access of outer level

end - begin was negative, and operator[] of an outer level could not be
instantiated as it returned an element as the container.
---
 include/soro/simulation/dpd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index bc7e160..57ac1eb 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -71,7 +71,7 @@ struct prob_dist_iter {
   bool operator!=(prob_dist_iter const& o) const { return it_ != o.it_; }
 
   int operator-(prob_dist_iter const& o) const {
-    return std::distance(it_, o.it_);
+    return static_cast<int>(std::distance(o.it_, it_));
   }
 
   typename T::primary_t t_;
@@ -176,7 +176,7 @@ struct dpd<Granularity, T, Ts...> {
     return static_cast<std::size_t>((offset / granularity).t_);
   }
 
-  container_t& operator[](primary_t const i) { return dpd_[to_idx(i)]; }
+  inner_dpd_t& operator[](primary_t const i) { return dpd_[to_idx(i)]; }
 
   void insert(primary_t head, Ts... tail, probability_t probability) {
     auto granularity = get_granularity();
-- 
2.43.0


From ba6a9b4bbef7c84b299b25d25eff15d3729a39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 19/59] fix: halt and runtime distributions sum up to one

The geometric weights started at an exponent of minus one, and the runtime
weights were multiplied by two instead of divided by the number of speeds,
which also divided by zero for a standing train.
---
 include/soro/simulation/disruption.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/soro/simulation/disruption.h b/include/soro/simulation/disruption.h
index 9eb2b31..f9eb15e 100644
--- a/include/soro/simulation/disruption.h
+++ b/include/soro/simulation/disruption.h
@@ -18,7 +18,7 @@ inline DurationDPD get_halt_distribution() {
     auto delay_as_prob = static_cast<probability_t>(delay.d_);
 
     probability_t const prob =
-        std::pow(1 - p_halt, delay_as_prob - probability_t(1.0)) * p_halt;
+        std::pow(1 - p_halt, delay_as_prob) * p_halt;
 
     result.insert(delay, prob);
   }
@@ -45,9 +45,8 @@ inline TimeSpeedDPD get_runtime_distribution(utls::unixtime const& arrival,
       auto const delay_as_prob = static_cast<probability_t>(delay.d_);
 
       probability_t const prob =
-          (std::pow(1 - p_departure, delay_as_prob - probability_t(1.0)) *
-           p_departure) /
-          static_cast<probability_t>(speed_variance.km_h_) * 2;
+          (std::pow(1 - p_departure, delay_as_prob) * p_departure) /
+          static_cast<probability_t>(speed_variance.km_h_ * 2 + 1);
 
       result.insert(arrival + delay, new_speed, prob);
     }
-- 
2.43.0


From b7ec0a5ebdc7897f462ea83a0f507d9a04bfae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 20/59] fix: next node of a trip in the ordering graph

next() returned the first outgoing edge, which is an arbitrary node once the
edges have been sorted and reduced.
---
 src/simulation/ordering/ordering_graph.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index fa553f4..7478795 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -219,13 +219,15 @@ std::span<const ordering_node> ordering_graph::trip_nodes(
 }
 
 ordering_node const& ordering_node::next(ordering_graph const& og) const {
+  // the nodes of a trip are consecutive; out_ is sorted and does not contain
+  // the edge to the next node when it is transitive
   utls::sasserts([this, &og] {
-    utls::sassert(!out_.empty(), "no next node");
-    auto const& next = og.nodes_[out_.front()];
+    utls::sassert(id_ + 1 < og.nodes_.size(), "no next node");
+    auto const& next = og.nodes_[id_ + 1];
     utls::sassert(next.train_id_ == train_id_, "next node not same train");
   });
 
-  return og.nodes_[out_.front()];
+  return og.nodes_[id_ + 1];
 }
 
-}  // namespace soro::simulation
\ No newline at end of file
+}  // namespace soro::simulation
-- 
2.43.0


From bb7a066771afd28a260a0f194dc579bca303e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 21/59] fix: extra speed limits of station routes apply to
 their node only

---
 src/infrastructure/station/station_route.cc | 22 +++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/infrastructure/station/station_route.cc b/src/infrastructure/station/station_route.cc
index 74b63a7..3264d12 100644
--- a/src/infrastructure/station/station_route.cc
+++ b/src/infrastructure/station/station_route.cc
@@ -153,28 +153,30 @@ utls::recursive_generator<route_node> station_route::from_to(
     co_return;
   }
 
-  route_node result;
   node::idx node_idx = from;
 
   auto [omit_idx, spl_idx] = fast_forward_indices(*this, from);
 
   for (; node_idx < to; ++node_idx) {
+    route_node result;
     result.node_ = nodes(node_idx);
 
     result.omitted_ = omit_idx < omitted_nodes_.size() &&
                       omitted_nodes_[omit_idx] == node_idx;
 
+    bool const extra_spl =
+        spl_idx < extra_speed_limits_.size() &&
+        extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
+
     if (result.omitted_) {
       ++omit_idx;
-    } else {
-      bool const extra_spl =
-          spl_idx < extra_speed_limits_.size() &&
-          extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
-
-      if (extra_spl) {
-        result.extra_spl_ =
-            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx++]);
-      }
+    } else if (extra_spl) {
+      result.extra_spl_ =
+          speed_limit::optional_ptr(&extra_speed_limits_[spl_idx]);
+    }
+
+    if (extra_spl) {
+      ++spl_idx;
     }
 
     co_yield result;
-- 
2.43.0


From 5a57bdebf296f2eeef4d305c1d5dd200ab19ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 22/59] fix: point of action of speed limits is not exchanged
 when parsing

---
 src/infrastructure/parsers/iss/parse_track_element.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/parsers/iss/parse_track_element.cc b/src/infrastructure/parsers/iss/parse_track_element.cc
index 9bfeb65..25619bd 100644
--- a/src/infrastructure/parsers/iss/parse_track_element.cc
+++ b/src/infrastructure/parsers/iss/parse_track_element.cc
@@ -21,11 +21,11 @@ namespace soro::infra {
 speed_limit::poa parse_speed_limit_poa(xml_node const& poa_node) {
   switch (str_hash(poa_node.child_value())) {
     case str_hash(SIGNAL): {
-      return speed_limit::poa::HERE;
+      return speed_limit::poa::LAST_SIGNAL;
     }
 
     case str_hash(HERE): {
-      return speed_limit::poa::LAST_SIGNAL;
+      return speed_limit::poa::HERE;
     }
 
     default: {
-- 
2.43.0


From fa4f8c96b3629f8ef6d5358a2250f3b6bed7f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 23/59] fix: infrastructure path may name the Index.xml

---
 src/infrastructure/parsers/iss/iss_files.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/parsers/iss/iss_files.cc b/src/infrastructure/parsers/iss/iss_files.cc
index 04de0fd..d70c131 100644
--- a/src/infrastructure/parsers/iss/iss_files.cc
+++ b/src/infrastructure/parsers/iss/iss_files.cc
@@ -51,7 +51,7 @@ iss_files get_iss_files(std::filesystem::path const& fp) {
   if (fp.extension() == ".iss") {
     throw utl::fail("archives are currently not supported.");
   } else if (fp.filename().string() == "Index.xml") {
-    return iss_files(fp.parent_path());
+    return iss_files(fp);
   } else if (is_directory(fp) && exists(fp / "Index.xml")) {
     return iss_files(fp / "Index.xml");
   } else if (is_directory(fp) && !exists(fp / "Index.xml")) {
-- 
2.43.0


From 940350ca7c1821f3bf9dd03f6183b7b9653cdd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 24/59] fix: infrastructures without interlocking routes do not
 divide by zero

---
 src/infrastructure/interlocking/get_interlocking.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/interlocking/get_interlocking.cc b/src/infrastructure/interlocking/get_interlocking.cc
index b4d2d8a..69400a9 100644
--- a/src/infrastructure/interlocking/get_interlocking.cc
+++ b/src/infrastructure/interlocking/get_interlocking.cc
@@ -273,6 +273,11 @@ void print_interlocking_stats(soro::vector<interlocking_route> const& irs) {
   }
 
   uLOG(utl::info) << "Generated " << irs.size() << " interlocking routes.";
+
+  if (irs.empty()) {
+    return;
+  }
+
   uLOG(utl::info) << "Average length in station routes of an interlocking: "
                   << length_in_srs / irs.size();
 }
-- 
2.43.0


From 46671d6b4bd6254ed83f718a4b9e502d4868d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 25/59] fix: refuse station routes whose course is too short

---
 src/infrastructure/parsers/iss/parse_iss.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/infrastructure/parsers/iss/parse_iss.cc b/src/infrastructure/parsers/iss/parse_iss.cc
index b42afd1..5b9c697 100644
--- a/src/infrastructure/parsers/iss/parse_iss.cc
+++ b/src/infrastructure/parsers/iss/parse_iss.cc
@@ -563,6 +563,10 @@ deduplicated_paths get_station_route_paths(infrastructure_t const& infra,
 
       auto const switch_element = next_node->element_->is_switch();
 
+      utl::verify(next_node->branch_node_ == nullptr ||
+                      course_idx < sr.course_.size(),
+                  "Course of station route {} is too short", sr.name_);
+
       if (next_node->branch_node_ == nullptr ||
           sr.course_[course_idx] == course_decision::STEM) {
         next_node = next_node->next_node_;
-- 
2.43.0


From 6eeba92d85c9abd9c7baa9f4c9485a1f65767eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 26/59] fix: refuse unknown attributes of station routes

---
 src/infrastructure/parsers/iss/parse_station_route.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/parsers/iss/parse_station_route.cc b/src/infrastructure/parsers/iss/parse_station_route.cc
index c2bbe28..96648e1 100644
--- a/src/infrastructure/parsers/iss/parse_station_route.cc
+++ b/src/infrastructure/parsers/iss/parse_station_route.cc
@@ -1,6 +1,7 @@
 #include "soro/infrastructure/parsers/iss/parse_station_route.h"
 
 #include "utl/logging.h"
+#include "utl/verify.h"
 
 #include "soro/utls/parse_int.h"
 #include "soro/utls/string.h"
@@ -54,7 +55,11 @@ intermediate_station_route parse_station_route(
   }
 
   for (auto const& at : xml_station_route.child(ATTRIBUTES).children()) {
-    i_station_route.attributes_[attribute_index(at.name())] = true;
+    auto const index = attribute_index(at.name());
+    utl::verify(index < i_station_route.attributes_.size(),
+                "Unknown attribute {} in station route {}", at.name(),
+                i_station_route.name_);
+    i_station_route.attributes_[index] = true;
   }
 
   for (auto const& cd : xml_station_route.child(COURSE).children()) {
-- 
2.43.0


From f91cf00c68c822c1ebd0f4e00f81287a722b5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 27/59] fix: borders without a counterpart in the neighbouring
 station are erased

---
 src/infrastructure/parsers/iss/parse_iss.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/parsers/iss/parse_iss.cc b/src/infrastructure/parsers/iss/parse_iss.cc
index 5b9c697..d21108d 100644
--- a/src/infrastructure/parsers/iss/parse_iss.cc
+++ b/src/infrastructure/parsers/iss/parse_iss.cc
@@ -918,8 +918,6 @@ void complete_borders(infrastructure_t& iss) {
     erased_borders -= station->borders_.size();
   }
 
-  uLOG(info) << "Erased " << erased_borders << " borders.";
-
   for (auto& from : iss.station_store_) {
     for (auto& from_border : from->borders_) {
       for (auto const& to_border : from_border.neighbour_->borders_) {
@@ -947,6 +945,18 @@ void complete_borders(infrastructure_t& iss) {
     }
   }
 
+  // remove a border if the bordering station does not contain the matching
+  // border
+  for (auto& station : iss.station_store_) {
+    erased_borders += station->borders_.size();
+    utl::erase_if(station->borders_, [](auto&& border) {
+      return border.neighbour_element_ == nullptr;
+    });
+    erased_borders -= station->borders_.size();
+  }
+
+  uLOG(info) << "Erased " << erased_borders << " borders.";
+
   // insert empty sections between two borders of neighbouring stations,
   // to make the section model consistent
   soro::set<border::id_tuple> finished_borders;
-- 
2.43.0


From 26adf8388a0988db37f1e6565238a63f81cac8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 28/59] fix: path length from sections does not read past the
 end of the path

---
 include/soro/infrastructure/path/length.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/soro/infrastructure/path/length.h b/include/soro/infrastructure/path/length.h
index 473de07..97f1602 100644
--- a/include/soro/infrastructure/path/length.h
+++ b/include/soro/infrastructure/path/length.h
@@ -50,7 +50,13 @@ si::length get_path_length_from_sections(Iterable&& element_iter) {
   si::length distance = si::ZERO<si::length>;
 
   element::ptr last_section = *iter;
-  element::ptr next_to_last_section = *(++iter);
+  ++iter;
+
+  if (iter == std::end(element_iter)) {
+    return distance;
+  }
+
+  element::ptr next_to_last_section = *iter;
 
   element::ptr next_section = next_to_last_section;
   element::ptr prev_to_next_section = last_section;
@@ -59,6 +65,10 @@ si::length get_path_length_from_sections(Iterable&& element_iter) {
     while (iter != std::end(element_iter) && (*iter)->is_track_element()) {
       ++iter;
 
+      if (iter == std::end(element_iter)) {
+        break;
+      }
+
       prev_to_next_section = next_section;
       next_section = *iter;
     }
@@ -72,6 +82,10 @@ si::length get_path_length_from_sections(Iterable&& element_iter) {
 
     ++iter;
 
+    if (iter == std::end(element_iter)) {
+      break;
+    }
+
     last_section = next_section;
     next_to_last_section = *iter;
 
-- 
2.43.0


From 25ed25705d6d6cd3e78cf0dc9fc2208c1149346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 29/59] fix: is_path skips absent neighbours

---
 include/soro/infrastructure/path/is_path.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/soro/infrastructure/path/is_path.h b/include/soro/infrastructure/path/is_path.h
index 9c46d87..154cf7b 100644
--- a/include/soro/infrastructure/path/is_path.h
+++ b/include/soro/infrastructure/path/is_path.h
@@ -9,8 +9,9 @@
 namespace soro::infra {
 
 inline bool neighbours(element::ptr e1, element::ptr e2) {
-  return utls::any_of(e1->neighbours(),
-                      [&](auto&& neigh) { return neigh->id() == e2->id(); });
+  return utls::any_of(e1->neighbours(), [&](auto&& neigh) {
+    return neigh != nullptr && neigh->id() == e2->id();
+  });
 }
 
 template <typename Iterable>
-- 
2.43.0


From 1298f1892683cd2facfeb46753fdc156e5bea726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 30/59] fix: departures in an interval include trips reaching
 into it from earlier days

---
 src/timetable/train.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timetable/train.cc b/src/timetable/train.cc
index e314edd..fcc0023 100644
--- a/src/timetable/train.cc
+++ b/src/timetable/train.cc
@@ -21,11 +21,19 @@ bool train_node::omitted() const {
   return omitted_ || (node_->is(type::HALT) && !sequence_point_.has_value());
 }
 
+// a trip reaching past midnight overlaps intervals that start on a later day
+// than its own service day, so looking for trips has to start earlier
+absolute_time earliest_anchor(train const& train, interval const& interval) {
+  auto const since_epoch = interval.start_.time_since_epoch();
+  return interval.start_ - std::min(since_epoch, train.last_arrival());
+}
+
 train::iterator::iterator(train const* train, interval const& interval,
                           bool const end)
     : train_{train},
       bitfield_it_(end ? train->service_days_.to(interval.end_)
-                       : train->service_days_.from(interval.start_)),
+                       : train->service_days_.from(
+                             earliest_anchor(*train, interval))),
       interval_{interval} {
   advance();
 }
-- 
2.43.0


From 473b9cdfc11c6944f1582b8f093ede08d916b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 31/59] fix: the path of a train follows its stop sequence

---
 .../station_route_to_interlocking_route.cc    | 87 +++++++++----------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index adb5f39..7bca34a 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -16,10 +16,20 @@ namespace soro::tt {
 using namespace soro::rs;
 using namespace soro::infra;
 
+// the number of station routes for which the interlocking route follows the
+// stop sequence from the given offset on.
+// 0, when the interlocking route leaves the stop sequence before its end
 auto get_prefix_length(interlocking_route const& interlocking_route,
                        stop_sequence const& stop_sequence,
                        std::size_t const sr_offset) {
-  auto sr1 = interlocking_route.station_routes_.begin();
+  auto sr1 = std::begin(interlocking_route.station_routes_);
+
+  // only the first interlocking route may start ahead of the stop sequence
+  if (sr_offset == 0) {
+    sr1 = std::find(sr1, std::end(interlocking_route.station_routes_),
+                    stop_sequence.points_.front().station_route_);
+  }
+
   auto sr2 = std::begin(stop_sequence.points_) +
              static_cast<std::ptrdiff_t>(sr_offset);
 
@@ -32,6 +42,11 @@ auto get_prefix_length(interlocking_route const& interlocking_route,
     ++prefix_length;
   }
 
+  if (sr1 != std::end(interlocking_route.station_routes_) &&
+      sr2 != std::end(stop_sequence.points_)) {
+    return std::size_t{0};
+  }
+
   return prefix_length;
 }
 
@@ -48,6 +63,10 @@ auto get_longest_prefix_interlocking_routes(
     auto const prefix_length =
         get_prefix_length(candidate_route, stop_sequence, sr_offset);
 
+    if (prefix_length == 0) {
+      continue;
+    }
+
     if (prefix_length > current_longset_prefix) {
       longest_prefixes.clear();
       current_longset_prefix = prefix_length;
@@ -87,6 +106,20 @@ struct cover {
   std::size_t node_idx_{0};
 };
 
+// the cover after using an interlocking route that follows the stop sequence
+// for 'prefix_length' station routes, starting at 'sr_offset'
+cover get_cover(interlocking_route const& ir, stop_sequence const& ss,
+                std::size_t const sr_offset, std::size_t const prefix_length,
+                infrastructure const& infra) {
+  auto const offset = sr_offset + prefix_length - 1;
+  auto const sr = ss.points_[offset].station_route_;
+
+  return {.stop_sequence_offset_ = offset,
+          .node_idx_ = ir.station_routes_.back() == sr
+                           ? ir.end_offset_
+                           : infra->station_routes_[sr]->size()};
+}
+
 // for a given stop sequence and a given current cover, find all possible next
 // interlocking routes
 interlocking_route::ids get_candidates(stop_sequence const& ss,
@@ -104,13 +137,8 @@ interlocking_route::ids get_candidates(stop_sequence const& ss,
     candidates = utls::intersect(candidates, *starting_candidates);
   }
 
-  if (candidates.size() == 1) {
-    return candidates;
-  }
-
   soro::vector<interlocking_route::id> const* halt_candidates = nullptr;
-  if (sp.is_halt() &&
-      current_cover.node_idx_ <= *sp.get_node_idx(freight, infra)) {
+  if (!last_node.has_value() && sp.is_halt()) {
     auto halt_node = *(sp.get_node(freight, infra));
     halt_candidates = &infra->interlocking_.halting_at_[halt_node->id_];
     candidates = utls::intersect(candidates, *halt_candidates);
@@ -152,22 +180,10 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
     return std::unexpected(error::route_transform::NO_UNIQUE_FIRST_IR);
   }
 
-  auto const& prefix_ir = irs.routes_[longest_prefix_routes.front()];
-
-  ss_cover.node_idx_ = prefix_ir.end_offset_;
-  if (current_longest_prefix == 0) {
-    ss_cover.stop_sequence_offset_ =
-        prefix_ir.station_routes_.size() -
-        utls::find_position(prefix_ir.station_routes_, first_sr->id_) - 1;
-  } else {
-    ss_cover.stop_sequence_offset_ = current_longest_prefix - 1;
-  }
-
-  if (longest_prefix_routes.size() == 1) {
-    return first_ir{.id_ = longest_prefix_routes.front(), .cover_ = ss_cover};
-  }
-
-  return std::unexpected(error::route_transform::NO_UNIQUE_FIRST_IR);
+  return first_ir{.id_ = longest_prefix_routes.front(),
+                  .cover_ = get_cover(irs.routes_[longest_prefix_routes.front()],
+                                      stop_sequence, 0, current_longest_prefix,
+                                      infra)};
 }
 
 soro::vector<sequence_point> get_sequence_points(interlocking_route const& ir,
@@ -249,28 +265,9 @@ utls::result<interlocking_transformation> transform_to_interlocking(
                             current_cover.stop_sequence_offset_ + prefix_length,
                             infra));
 
-    // the current cover + the current interlocking route cover more
-    // than the given stop sequence.
-    // thus, it is fully covered
-    if (current_cover.stop_sequence_offset_ +
-            current_ir->station_routes_.size() >
-        stop_sequence.points_.size()) {
-      break;
-    }
-
-    // true when the current interlocking route and the currently worked on
-    // station route end on the same node
-    auto const last_sr_id =
-        stop_sequence.points_[current_cover.stop_sequence_offset_]
-            .station_route_;
-    auto const ends_align = current_ir->last_node(infra) ==
-                            infra->station_routes_[last_sr_id]->nodes().back();
-
-    // when the ends align we have completely inserted the current station route
-    // into the interlocking path, so we can move on to the next station route
-    current_cover.stop_sequence_offset_ +=
-        ends_align ? prefix_length : prefix_length - 1;
-    current_cover.node_idx_ = current_ir->end_offset_;
+    current_cover =
+        get_cover(*current_ir, stop_sequence,
+                  current_cover.stop_sequence_offset_, prefix_length, infra);
   }
 
   utls::ensures([&] {
-- 
2.43.0


From 733f83d8c6b57bfb78c99c066e01515ed709e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 32/59] fix: read the infrastructure version from a timetable
 file, not from any file

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index a45d802..f9abc24 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -510,7 +510,12 @@ infra::version get_required_infra_version(timetable_options const& opts) {
   utls::expect(!fs::is_empty(opts.timetable_path_),
                "timetable path {} is empty", opts.timetable_path_);
 
-  auto const first_fp = begin(fs::directory_iterator{opts.timetable_path_});
+  // the directory may contain other files besides the timetable
+  auto const first_fp = std::find_if(
+      fs::directory_iterator{opts.timetable_path_}, fs::directory_iterator{},
+      [](auto&& dir_entry) { return is_kss_file(dir_entry.path()); });
+  utls::expect(first_fp != fs::directory_iterator{},
+               "timetable path {} contains no kss file", opts.timetable_path_);
   auto const first_file = utls::load_file(first_fp->path());
 
   xml_document tt_xml;
-- 
2.43.0


From ab9f9fd630367170cdacb5053bb8810f7ffceb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 33/59] fix: speed limits from the last signal start at that
 signal

When the main signal shares its position with a previous interval border it is
merged into that border, so its index is that of the last interval, not the
index of the next one.
---
 src/runtime/interval.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/interval.cc b/src/runtime/interval.cc
index b61af2d..2581acb 100644
--- a/src/runtime/interval.cc
+++ b/src/runtime/interval.cc
@@ -211,10 +211,6 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
       current_limit = (*spl_duo.here_)->limit_;
     }
 
-    if (tn.node_->is(type::MAIN_SIGNAL)) {
-      last_ms = list.size();
-    }
-
     if (event_types.contains(tn.node_->type())) {
       current_events.emplace_back(tn.node_, current_distance);
     }
@@ -234,6 +230,10 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
         list.push_back(new_interval);
       }
 
+      if (tn.node_->is(type::MAIN_SIGNAL)) {
+        last_ms = list.size() - 1;
+      }
+
       prev_limit = current_limit;
       current_events = {};
     }
-- 
2.43.0


From d64512d399c8d32249dc110f14da243deb871ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 34/59] fix: refuse to run a train that cannot overcome its
 resistance

Its speed and distance fell without end, and so did the calculation.
---
 src/runtime/runtime_physics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/runtime_physics.cc b/src/runtime/runtime_physics.cc
index e213c91..88565d7 100644
--- a/src/runtime/runtime_physics.cc
+++ b/src/runtime/runtime_physics.cc
@@ -97,6 +97,9 @@ runtime_results accelerate(rs::train_physics const& tp,
     current_distance += (prev_speed + current_speed) * 0.5 * DELTA_T;
     current_time += DELTA_T;
 
+    utl::verify(current_speed > ZERO<speed>,
+                "Train is too weak to overcome its resistance.");
+
     rr.emplace_back(current_time, current_distance, current_speed);
   }
 
-- 
2.43.0


From 4be65b2571d9c712cd49c00fc5ecbe02d8efc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 35/59] fix: loading a layout without a coordinates file failed
 on the empty station coordinates

---
 src/infrastructure/parsers/parse_station_coords.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infrastructure/parsers/parse_station_coords.cc b/src/infrastructure/parsers/parse_station_coords.cc
index c15d047..812a6a5 100644
--- a/src/infrastructure/parsers/parse_station_coords.cc
+++ b/src/infrastructure/parsers/parse_station_coords.cc
@@ -18,14 +18,14 @@ using namespace soro::utls;
 soro::vector<gps> parse_station_coords(
     std::filesystem::path const& gps_path,
     soro::map<soro::string, station::ptr> const& ds100_to_station) {
+  soro::vector<gps> station_coords(
+      static_cast<uint32_t>(ds100_to_station.size()));
+
   if (!std::filesystem::exists(gps_path)) {
     uLOG(warn) << "GPS coordinate path '" << gps_path << "' does not exist.";
-    return {};
+    return station_coords;
   }
 
-  soro::vector<gps> station_coords(
-      static_cast<uint32_t>(ds100_to_station.size()));
-
   auto const gps_content = utls::read_file_to_string(gps_path);
 
   struct row {
-- 
2.43.0


From b883b4df6c98b8e21263e5d3954faa1b3854cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 36/59] fix: requests for unknown elements and exclusion sets
 read out of bounds

---
 web/server/src/modules/infrastructure/serve_element.cc    | 7 +++++++
 .../src/modules/infrastructure/serve_exclusion_set.cc     | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index 564aeab..ae09506 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -46,6 +46,13 @@ net::web_server::string_res_t infrastructure_module::serve_element(
   }
 
   auto const e_id = utls::parse_int<element_id>(req.path_params_[1]);
+  if (e_id >= (**infra)->graph_.elements_.size()) {
+    uLOG(utl::warn) << "requesting element with id " << e_id
+                    << " but there are only "
+                    << (**infra)->graph_.elements_.size() << " elements";
+    return net::not_found_response(req);
+  }
+
   auto const& element = (**infra)->graph_.elements_[e_id];
 
   json_archive archive;
diff --git a/web/server/src/modules/infrastructure/serve_exclusion_set.cc b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
index c775048..75646eb 100644
--- a/web/server/src/modules/infrastructure/serve_exclusion_set.cc
+++ b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
@@ -21,6 +21,14 @@ net::web_server::string_res_t infrastructure_module::serve_exclusion_set(
   }
 
   auto const es_id = utls::parse_int<exclusion_set::id>(req.path_params_[1]);
+  if (es_id >= (**infra)->exclusion_.exclusion_sets_.size()) {
+    uLOG(utl::warn) << "requesting exclusion set with id " << es_id
+                    << " but there are only "
+                    << (**infra)->exclusion_.exclusion_sets_.size()
+                    << " exclusion sets";
+    return net::not_found_response(req);
+  }
+
   auto const& es = (**infra)->exclusion_.exclusion_sets_[es_id];
 
   json_archive archive;
-- 
2.43.0


From 00fede03161fdb68f4aadd88cc408e122221c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 37/59] fix: requests for timetables of unknown infrastructures
 are answered

---
 .../src/modules/timetable/serve_timetable_names.cc       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/timetable/serve_timetable_names.cc b/web/server/src/modules/timetable/serve_timetable_names.cc
index c3744a9..2176df2 100644
--- a/web/server/src/modules/timetable/serve_timetable_names.cc
+++ b/web/server/src/modules/timetable/serve_timetable_names.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/timetable/timetable_module.h"
 
+#include "net/web_server/responses.h"
+
 #include "soro/server/cereal/cereal_extern.h"
 #include "soro/server/cereal/json_archive.h"
 
@@ -7,7 +9,12 @@ namespace soro::server {
 
 net::web_server::string_res_t timetable_module::serve_timetable_names(
     net::query_router::route_request const& req) const {
-  auto const& context = this->contexts_.at(req.path_params_.front());
+  auto const context_it = contexts_.find(req.path_params_.front());
+  if (context_it == std::end(contexts_)) {
+    return net::not_found_response(req);
+  }
+
+  auto const& context = context_it->second;
 
   json_archive archive;
   archive.add()(cereal::make_nvp("timetables",
-- 
2.43.0


From 5f85953ad60a6bfc7a89b0720d8ab55bcd3835f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 38/59] fix: search finds halts that have only one of their
 identifiers

---
 web/server/src/modules/search/search_module.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/server/src/modules/search/search_module.cc b/web/server/src/modules/search/search_module.cc
index ec359e4..822f26c 100644
--- a/web/server/src/modules/search/search_module.cc
+++ b/web/server/src/modules/search/search_module.cc
@@ -106,12 +106,12 @@ search_module::context get_search_context(infra::infrastructure const& infra) {
         ctx.results_.push_back({type, name, bb, id, type_str});
       }
 
-      if (!data.identifier_extern_.empty()) {
+      if (!data.identifier_operational_.empty()) {
         std::string const name(data.identifier_operational_);
-        ctx.results_.push_back({type, name, bb, id});
+        ctx.results_.push_back({type, name, bb, id, type_str});
       }
 
-      if (!data.identifier_operational_.empty()) {
+      if (!data.identifier_extern_.empty()) {
         std::string const name(data.identifier_extern_);
         ctx.results_.push_back({type, name, bb, id, type_str});
       }
-- 
2.43.0


From 4fe329147e6637cd0c924ecf39286e563f008255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 39/59] fix: speed limits without a speed are served as valid
 JSON

---
 web/server/src/modules/infrastructure/serve_element.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index ae09506..cf2466f 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -27,7 +27,11 @@ void add_data_to_cereal_archive(Archive& archive, element_data_t const& ed) {
         archive(cereal::make_nvp("id_op", halt.identifier_operational_));
       },
       [&](speed_limit const& limit) {
-        archive(cereal::make_nvp("limit", si::as_km_h(limit.limit_)));
+        // the end of a special speed limit does not have to give a speed, and
+        // there is no invalid number in JSON
+        if (si::valid(limit.limit_)) {
+          archive(cereal::make_nvp("limit", si::as_km_h(limit.limit_)));
+        }
         archive(cereal::make_nvp("point_of_activation", limit.poa_));
       },
       [&](main_signal const& ms) {
-- 
2.43.0


From 009e1e5c483361853061e2a7b74d8163c0e8a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 40/59] fix: interpolating between borders at the same place
 exported positions that are no numbers

---
 web/server/src/modules/tiles/osm_export/interpolation.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/tiles/osm_export/interpolation.cc b/web/server/src/modules/tiles/osm_export/interpolation.cc
index 9a7fd32..23f8c0e 100644
--- a/web/server/src/modules/tiles/osm_export/interpolation.cc
+++ b/web/server/src/modules/tiles/osm_export/interpolation.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/tiles/osm_export/interpolation.h"
 
+#include <algorithm>
+
 #include "soro/utls/coordinates/angle.h"
 #include "soro/utls/coordinates/cartesian.h"
 #include "soro/utls/coordinates/gps.h"
@@ -59,7 +61,8 @@ gps get_auxiliary_point(element_ptr e1, element_ptr e2,
     dist = sin(to_rad(e1_gps.lat_)) * sin(to_rad(e2_gps.lat_)) +
            cos(to_rad(e1_gps.lat_)) * cos(to_rad(e2_gps.lat_)) *
                cos(to_rad(e1_gps.lon_ - e2_gps.lon_));
-    dist = acos(dist);
+    // rounding errors put the same place slightly above one
+    dist = acos(std::min(dist, 1.0));
     dist = (EARTH_RADIUS / 1000.0 * PI * dist) / 180.0F;
     double units = 0.2 * dist;
 
-- 
2.43.0


From b2a34975ab0c7ac9af69c90fad2274b1df323bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 41/59] fix: elements without a neighbour are refused instead
 of followed

---
 src/infrastructure/graph/graph_creation.cc | 45 ++++++++++------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/infrastructure/graph/graph_creation.cc b/src/infrastructure/graph/graph_creation.cc
index f41e4de..0bb3c5a 100644
--- a/src/infrastructure/graph/graph_creation.cc
+++ b/src/infrastructure/graph/graph_creation.cc
@@ -383,8 +383,10 @@ node::ptr get_node(cross const& e, bool const rising, element::ptr neigh) {
   throw utl::fail("neigh does not appear in neighbours");
 }
 
-node::ptr get_node(element const& e, bool const rising, element::ptr neigh) {
-  return e.apply([&](auto&& x) { return get_node(x, rising, neigh); });
+node::ptr get_node(element::ptr e, bool const rising, element::ptr neigh) {
+  utl::verify(e != nullptr, "element {} is not connected to a neighbour",
+              neigh->id());
+  return e->apply([&](auto&& x) { return get_node(x, rising, neigh); });
 }
 
 non_const_ptr<node> to_non_const(node::ptr ptr) {
@@ -408,10 +410,9 @@ void connect_nodes(end_element& e, element::ptr this_ptr) {
   auto bot_ptr = to_non_const(e.bot());
 
   if (!e.rising_) {
-    top_ptr->next_node_ = get_node(*e.rising_neighbour(), !e.rising_, this_ptr);
+    top_ptr->next_node_ = get_node(e.rising_neighbour(), !e.rising_, this_ptr);
   } else {
-    bot_ptr->next_node_ =
-        get_node(*e.falling_neighbour(), !e.rising_, this_ptr);
+    bot_ptr->next_node_ = get_node(e.falling_neighbour(), !e.rising_, this_ptr);
   }
 }
 
@@ -422,31 +423,29 @@ void connect_nodes(simple_element& e, element::ptr this_ptr) {
   if (e.type_ == type::LINE_SWITCH) {
     if (e.rising_) {
 
-      top_ptr->next_node_ =
-          get_node(*(e.end_rising_ ? e.end_falling_neighbour()
-                                   : e.end_rising_neighbour()),
-                   !e.end_rising_, this_ptr);
+      top_ptr->next_node_ = get_node(
+          e.end_rising_ ? e.end_falling_neighbour() : e.end_rising_neighbour(),
+          !e.end_rising_, this_ptr);
 
       bot_ptr->next_node_ =
-          get_node(*e.start_falling_neighbour(), false, this_ptr);
+          get_node(e.start_falling_neighbour(), false, this_ptr);
     } else {
 
       top_ptr->next_node_ =
-          get_node(*e.start_rising_neighbour(), true, this_ptr);
+          get_node(e.start_rising_neighbour(), true, this_ptr);
 
-      bot_ptr->next_node_ =
-          get_node(*(e.end_rising_ ? e.end_falling_neighbour()
-                                   : e.end_rising_neighbour()),
-                   !e.end_rising_, this_ptr);
+      bot_ptr->next_node_ = get_node(
+          e.end_rising_ ? e.end_falling_neighbour() : e.end_rising_neighbour(),
+          !e.end_rising_, this_ptr);
     }
   } else {
     if (e.start_rising_neighbour() != nullptr) {
       top_ptr->next_node_ =
-          get_node(*e.start_rising_neighbour(), true, this_ptr);
+          get_node(e.start_rising_neighbour(), true, this_ptr);
     }
     if (e.end_falling_neighbour() != nullptr) {
       bot_ptr->next_node_ =
-          get_node(*e.end_falling_neighbour(), false, this_ptr);
+          get_node(e.end_falling_neighbour(), false, this_ptr);
     }
   }
 }
@@ -456,19 +455,18 @@ void connect_nodes(undirected_track_element& e, element::ptr this_ptr) {
   auto bot_ptr = to_non_const(e.bot());
 
   if (e.start_rising_neighbour() != nullptr) {
-    top_ptr->next_node_ = get_node(*e.start_rising_neighbour(), true, this_ptr);
+    top_ptr->next_node_ = get_node(e.start_rising_neighbour(), true, this_ptr);
   }
 
   if (e.end_falling_neighbour() != nullptr) {
-    bot_ptr->next_node_ = get_node(*e.end_falling_neighbour(), false, this_ptr);
+    bot_ptr->next_node_ = get_node(e.end_falling_neighbour(), false, this_ptr);
   }
 }
 
 void connect_nodes(simple_switch& e, element::ptr this_ptr) {
   auto const& connect = [&](std::pair<element::ptr, element::ptr> const& neighs,
                             auto const rising) {
-    return get_node(*(rising ? neighs.second : neighs.first), !rising,
-                    this_ptr);
+    return get_node(rising ? neighs.second : neighs.first, !rising, this_ptr);
   };
 
   auto top = to_non_const(e.top());
@@ -498,14 +496,13 @@ void connect_nodes(simple_switch& e, element::ptr this_ptr) {
 
 void connect_nodes(track_element& e, element::ptr this_ptr) {
   auto node = to_non_const(e.get_node());
-  node->next_node_ = get_node(*e.ahead(), e.rising_, this_ptr);
+  node->next_node_ = get_node(e.ahead(), e.rising_, this_ptr);
 }
 
 void connect_nodes(cross& e, element::ptr this_ptr) {
   auto const& connect = [&](std::pair<element::ptr, element::ptr> const& neighs,
                             auto const rising) {
-    return get_node(*(rising ? neighs.second : neighs.first), !rising,
-                    this_ptr);
+    return get_node(rising ? neighs.second : neighs.first, !rising, this_ptr);
   };
 
   auto top = to_non_const(e.top());
-- 
2.43.0


From 0838ec9cca07da21bf474466a4ae45130fc26269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 42/59] fix: sections without nodes are refused

---
 src/infrastructure/parsers/iss/parse_iss.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infrastructure/parsers/iss/parse_iss.cc b/src/infrastructure/parsers/iss/parse_iss.cc
index d21108d..af7f614 100644
--- a/src/infrastructure/parsers/iss/parse_iss.cc
+++ b/src/infrastructure/parsers/iss/parse_iss.cc
@@ -198,6 +198,9 @@ section::id parse_section_into_network(xml_node const& xml_rp_section,
                                        construction_materials& mats) {
   auto const line_id =
       utls::parse_int<line::id>(xml_rp_section.child_value(LINE));
+  utl::verify(xml_rp_section.child(RAIL_PLAN_NODE).first_child() != nullptr,
+              "section of line {} has no nodes", line_id);
+
   auto const& section_start =
       xml_rp_section.child(RAIL_PLAN_NODE).children().begin();
   auto const& section_end =
-- 
2.43.0


From ecc904d238e530d3afa7245874605243a1def094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 43/59] fix: an extra speed limit off its route is refused

---
 src/infrastructure/parsers/iss/parse_iss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/parsers/iss/parse_iss.cc b/src/infrastructure/parsers/iss/parse_iss.cc
index af7f614..11f6c0a 100644
--- a/src/infrastructure/parsers/iss/parse_iss.cc
+++ b/src/infrastructure/parsers/iss/parse_iss.cc
@@ -815,8 +815,8 @@ void calculate_station_routes(infrastructure_t& infra,
         return n->element_->id() == spl.element_->id();
       });
 
-      utls::sassert(it != std::end(sr->nodes()),
-                    "Could not find node for the extra speed limit!");
+      utl::verify(it != std::end(sr->nodes()),
+                  "Could not find node for the extra speed limit!");
 
       spl.node_ = *it;
     }
-- 
2.43.0


From 71e85ec98a4dc907a986ab523bf73d796847d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 44/59] fix: service days that do not fit their dates are
 refused

---
 src/timetable/bitfield.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index fbd7c66..5afa914 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -1,5 +1,6 @@
 #include "soro/timetable/bitfield.h"
 
+#include <cstring>
 #include <array>
 
 #include "utl/verify.h"
@@ -244,19 +245,16 @@ absolute_time bitfield::last_set_date() const noexcept {
 bitfield make_bitfield(bitfield::anchor_time const first_date,
                        bitfield::anchor_time const last_date,
                        const char* const bitmask) {
+  utl::verify(first_date <= last_date, "Last date {} before first date {}.",
+              last_date, first_date);
+
   auto const bitmask_length = distance(first_date, last_date) + 1;
 
-  utls::sasserts([&]() {
-    utls::sassert(first_date <= last_date, "Last date {} before first date {}.",
-                  last_date, first_date);
-
-    auto const strlen_length = strlen(bitmask);
-    utls::sassert(strlen_length == distance(first_date, last_date) + 1,
-                  "Distance between first date {} and last date {} is {}, but "
-                  "bit_string has length of {}.",
-                  first_date, last_date, distance(first_date, last_date),
-                  strlen_length);
-  });
+  utl::verify(
+      strlen(bitmask) == bitmask_length && bitmask_length <= bitfield::BITSIZE,
+      "Distance between first date {} and last date {} is {}, but "
+      "bit_string has length of {}.",
+      first_date, last_date, bitmask_length - 1, strlen(bitmask));
 
   std::array<char, bitfield::BITSIZE> buf{};
   std::fill(std::begin(buf), std::end(buf), '0');
-- 
2.43.0


From f8e62cb4c359dfda761dc1a4153ce8948eaaec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 45/59] fix: malformed dates, times and durations of timetables
 are refused

---
 .../parsers/kss/parse_kss_timetable.cc        | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index f9abc24..6cc0de8 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -9,6 +9,7 @@
 #include "utl/logging.h"
 #include "utl/parallel_for.h"
 #include "utl/timer.h"
+#include "utl/verify.h"
 
 #include "soro/base/error.h"
 
@@ -64,8 +65,8 @@ bitfield parse_services(xml_node const services_xml) {
   std::size_t total_service_days = 0;
 
   auto const parse_date = [](const char* const c) {
-    utls::sassert(strlen(c) == strlen("2022-11-19"),
-                  "Date {} has not the expected length.", c);
+    utl::verify(strlen(c) == strlen("2022-11-19"),
+                "Date {} has not the expected length.", c);
 
     date::year const y{parse_int<int>(c, c + 4)};
     date::month const m{parse_int<unsigned>(c + 5, c + 7)};
@@ -73,8 +74,7 @@ bitfield parse_services(xml_node const services_xml) {
 
     date::year_month_day date{y, m, d};
 
-    utls::sassert(date.ok(), "Date {} - {} - {} is not ok!", date.year(),
-                  date.month(), date.day());
+    utl::verify(date.ok(), "Date {} is not ok!", c);
 
     return date;
   };
@@ -125,14 +125,14 @@ bitfield parse_services(xml_node const services_xml) {
       accumulated_bitfield.ok() ? accumulated_bitfield |= bf
                                 : accumulated_bitfield = bf;
     } else {
-      utls::sassert(
+      utl::verify(
           accumulated_bitfield.ok(),
           "Trying to set special date, but base bitfield is not constructed");
       parse_special_service(accumulated_bitfield, service_xml);
     }
   }
 
-  utls::sassert(accumulated_bitfield.ok());
+  utl::verify(accumulated_bitfield.ok(), "Train without services");
   utls::sassert(total_service_days == accumulated_bitfield.count(),
                 "Counted different amount of service days than ended up in the "
                 "bitfield!");
@@ -143,7 +143,8 @@ bitfield parse_services(xml_node const services_xml) {
 relative_time parse_time_offset(xml_node const time_xml) {
   auto const time_str = time_xml.child_value("time");
 
-  utls::sassert(strlen(time_str) == strlen("HH:MM:SS.SS"));
+  utl::verify(strlen(time_str) >= strlen("HH:MM:SS"),
+              "Time {} has not the expected length.", time_str);
 
   hours const h{parse_int<uint64_t>(time_str, time_str + 2)};
   minutes const m{parse_int<uint64_t>(time_str + 3, time_str + 5)};
@@ -159,8 +160,8 @@ relative_time parse_time_offset(xml_node const time_xml) {
 }
 
 duration2 parse_duration(char const* const dur_str) {
-  utls::sassert(dur_str[0] == 'P');
-  utls::sassert(dur_str[1] == 'T');
+  utl::verify(dur_str[0] == 'P' && dur_str[1] == 'T',
+              "Duration {} does not start with PT.", dur_str);
 
   // Example duration strings:
   // PT_
@@ -182,6 +183,8 @@ duration2 parse_duration(char const* const dur_str) {
       return (std::isalpha(c) != 0) && (std::isupper(c) != 0);
     });
 
+    utl::verify(next_cap != str_end, "Duration {} is not complete.", dur_str);
+
     switch (*next_cap) {
       case 'H': {
         result += hours{parse_int<hours::rep>(letter_it, next_cap)};
-- 
2.43.0


From 050a9ede24f4214e1ac894c77837bb4eb122cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 46/59] fix: trains whose service days are all excluded again

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index 6cc0de8..d195320 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -544,6 +544,9 @@ interval get_interval(soro::vector<train> const& trains) {
   interval result{.start_ = absolute_time::max(), .end_ = absolute_time::min()};
 
   for (auto const& train : trains) {
+    // every service day can be excluded again by a special service
+    if (train.trip_count() == 0) continue;
+
     result.start_ = std::min(result.start_, train.first_absolute_departure());
     result.end_ = std::max(result.end_, train.last_absolute_arrival());
   }
-- 
2.43.0


From 2999ed253d2f29e625a86e45ead7ca87c0fcf372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 47/59] fix: a course that leads in circles past its end is
 refused

---
 src/infrastructure/parsers/iss/parse_iss.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/infrastructure/parsers/iss/parse_iss.cc b/src/infrastructure/parsers/iss/parse_iss.cc
index 11f6c0a..9de09db 100644
--- a/src/infrastructure/parsers/iss/parse_iss.cc
+++ b/src/infrastructure/parsers/iss/parse_iss.cc
@@ -561,7 +561,14 @@ deduplicated_paths get_station_route_paths(infrastructure_t const& infra,
                             node::ptr next_node, auto const last_node_id) {
     uint32_t course_idx = 0;
     soro::vector<node::ptr> nodes;
+
+    // a longer path repeats itself between two course decisions
+    auto const max_nodes = (sr.course_.size() + 1) * infra.graph_.nodes_.size();
+
     while (next_node != nullptr && next_node->id_ != last_node_id) {
+      utl::verify(nodes.size() < max_nodes,
+                  "Path of station route {} does not reach its end", sr.name_);
+
       nodes.push_back(next_node);
 
       auto const switch_element = next_node->element_->is_switch();
-- 
2.43.0


From 9eaa83e12a04d771b6cf2614571e1f326a288656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 48/59] fix: lines without segments are refused when asked for

---
 src/infrastructure/line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/line.cc b/src/infrastructure/line.cc
index 7e38f6d..137c3ea 100644
--- a/src/infrastructure/line.cc
+++ b/src/infrastructure/line.cc
@@ -1,11 +1,12 @@
 #include "soro/infrastructure/line.h"
 
 #include "utl/logging.h"
+#include "utl/verify.h"
 
 namespace soro::infra {
 
 line::segment const& get_segment(line const& l, kilometrage const km) {
-  utls::expect(!l.segments_.empty(), "Segments of line {} are empty.", l.id_);
+  utl::verify(!l.segments_.empty(), "Segments of line {} are empty.", l.id_);
 
   // ideally these would be a precondition, alas
   if (km < l.segments_.front().from_) {
-- 
2.43.0


From 90a727d929672583401525f776451388e2a9a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 49/59] fix: service days further apart than a bitfield reaches
 are refused

---
 include/soro/timetable/bitfield.h |  4 ++--
 src/timetable/bitfield.cc         | 23 +++++++++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/soro/timetable/bitfield.h b/include/soro/timetable/bitfield.h
index 719bd58..8f62f53 100644
--- a/include/soro/timetable/bitfield.h
+++ b/include/soro/timetable/bitfield.h
@@ -60,8 +60,8 @@ struct bitfield {
 
   bool operator==(bitfield const& o) const noexcept = default;
 
-  bitfield operator|=(bitfield const& o) noexcept;
-  friend bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept;
+  bitfield operator|=(bitfield const& o);
+  friend bitfield operator|(bitfield const& lhs, bitfield const& rhs);
 
   soro::size_t count() const noexcept;
 
diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index 5afa914..231d95d 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -166,6 +166,14 @@ int8_t in_range(bitfield::anchor_time const ymd,
 }
 
 void bitfield::set(bitfield::anchor_time const ymd, bool const new_value) {
+  auto const first = std::min(ymd, this->first_date_);
+  auto const last = std::max(ymd, this->last_date_);
+
+  utl::verify(
+      distance(first, last) < BITSIZE,
+      "Covering from start date {} to last date {} impossible with {} bits.",
+      first, last, BITSIZE);
+
   auto const pos = in_range(ymd, this->first_date_, this->last_date_);
 
   anchor_time const anchor{ymd};
@@ -177,11 +185,6 @@ void bitfield::set(bitfield::anchor_time const ymd, bool const new_value) {
     this->last_date_ = ymd;
   }  // else pos == 0, no changes to dates
 
-  utls::sassert(
-      distance(this->first_date_, this->last_date_) < BITSIZE,
-      "Covering from start date {} to last date {} impossible with {} bits.",
-      this->first_date_, this->last_date_, BITSIZE);
-
   bitset_.set(get_idx(first_date_, last_date_, ymd), new_value);
 }
 
@@ -193,16 +196,16 @@ bool bitfield::equivalent(bitfield const& o) const noexcept {
   return this->get_set_days() == o.get_set_days();
 }
 
-bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept {
+bitfield operator|(bitfield const& lhs, bitfield const& rhs) {
   auto copy = lhs;
   copy |= rhs;
   return copy;
 }
 
-bitfield bitfield::operator|=(bitfield const& o) noexcept {
-  utls::sassert(distance(std::min(this->first_date_, o.first_date_),
-                         std::max(this->last_date_, o.last_date_)) < BITSIZE,
-                "Covering more days than possible with only {} bits.", BITSIZE);
+bitfield bitfield::operator|=(bitfield const& o) {
+  utl::verify(distance(std::min(this->first_date_, o.first_date_),
+                       std::max(this->last_date_, o.last_date_)) < BITSIZE,
+              "Covering more days than possible with only {} bits.", BITSIZE);
 
   if (this->first_date_ < o.first_date_) {
     auto const c = o.bitset_ << distance(this->first_date_, o.first_date_);
-- 
2.43.0


From 830367bb5bd789b07a7345281fe4cf0925b01fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 50/59] fix: computing exclusions divided by zero when the
 number of processors is not known

---
 src/infrastructure/exclusion/get_exclusion.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/exclusion/get_exclusion.cc b/src/infrastructure/exclusion/get_exclusion.cc
index b8fc49d..cf8a156 100644
--- a/src/infrastructure/exclusion/get_exclusion.cc
+++ b/src/infrastructure/exclusion/get_exclusion.cc
@@ -1,5 +1,8 @@
 #include "soro/infrastructure/exclusion/get_exclusion.h"
 
+#include <algorithm>
+#include <thread>
+
 #include "utl/concat.h"
 #include "utl/enumerate.h"
 #include "utl/erase_duplicates.h"
@@ -43,7 +46,8 @@ soro::vector<interlocking_route::ids> get_closed_element_used_by(
   result_t element_used_by(element_count);
 
   // Set up the thread results ...
-  auto const thread_count = std::thread::hardware_concurrency();
+  // zero, when the number of processors is not known
+  auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
   soro::vector<result_t> thread_results(thread_count, result_t(element_count));
 
   // ... thread lambda ...
-- 
2.43.0


From 118364b6d976eeb40217ea40c1d5daacfee339a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 51/59] fix: the map export divided by zero when the number of
 processors is not known

---
 web/server/src/modules/tiles/osm_export/osm_export.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/tiles/osm_export/osm_export.cc b/web/server/src/modules/tiles/osm_export/osm_export.cc
index b621a5d..9c2250e 100644
--- a/web/server/src/modules/tiles/osm_export/osm_export.cc
+++ b/web/server/src/modules/tiles/osm_export/osm_export.cc
@@ -1,5 +1,6 @@
 #include "soro/server/modules/tiles/osm_export/osm_export.h"
 
+#include <algorithm>
 #include <future>
 
 #include "utl/logging.h"
@@ -180,7 +181,9 @@ pugi::xml_document export_to_osm(soro::infra::infrastructure_t const& iss) {
 
   uLOG(info) << "[ OSM Export ] Stations and elements to OSM.";
   auto node_length = osm_info.nodes_.size();
-  std::size_t const thread_count = std::thread::hardware_concurrency();
+  // zero, when the number of processors is not known
+  std::size_t const thread_count =
+      std::max(1U, std::thread::hardware_concurrency());
   std::size_t const unit = (node_length / thread_count) + 1;
   std::vector<std::future<pugi::xml_document>> docs;
 
-- 
2.43.0


From 81208a552c58117dd2d41a285dfe0ff84d58d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 52/59] fix: closest pair of nodes names the node it measured

---
 tools/generate-osm/db-utils/find-nodes/find-closest-match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/find-nodes/find-closest-match.go b/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
index 66702a5..ab2cb02 100644
--- a/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
+++ b/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
@@ -47,7 +47,7 @@ func findClosestMatch(
 
 	var allPairs = []NodePair{
 		{upNode1, upNode2, distUp1Up2, upDist1, upDist2},
-		{upNode1, downNode1, distUp1Down2, upDist1, downDist2},
+		{upNode1, downNode2, distUp1Down2, upDist1, downDist2},
 		{downNode1, upNode2, distDown1Up2, downDist1, upDist2},
 		{downNode1, downNode2, distDown1Down2, downDist1, downDist2}}
 
-- 
2.43.0


From f929484bb4d0c5c21441063c08a5a7634637d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 53/59] fix: node of a distance sought in the right direction

---
 .../db-utils/find-nodes/find-new-node.go      | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tools/generate-osm/db-utils/find-nodes/find-new-node.go b/tools/generate-osm/db-utils/find-nodes/find-new-node.go
index 9f7636d..b3c9279 100644
--- a/tools/generate-osm/db-utils/find-nodes/find-new-node.go
+++ b/tools/generate-osm/db-utils/find-nodes/find-new-node.go
@@ -31,9 +31,24 @@ func findNewNode(
 		return nil, errors.Wrap(err2, "insufficient anchor: "+node2.Id)
 	}
 
-	if up1 == up2 || up1 == down2 {
+	upMatches := up1 == up2 || up1 == down2
+	downMatches := down1 == up2 || down1 == down2
+	if upMatches && downMatches {
+		// Both searches can end at the same Node in the wrong direction, too, e.g. where the track ends.
+		// In the right direction the Node is as much too far away (or too close) from the one as from the other.
+		mismatch := func(id string, nodeDist1 float64) float64 {
+			nodeDist2 := downDist2
+			if id == up2 {
+				nodeDist2 = upDist2
+			}
+			return math.Abs((nodeDist1 - dist1) - (nodeDist2 - dist2))
+		}
+		upMatches = mismatch(up1, upDist1) <= mismatch(down1, downDist1)
+	}
+
+	if upMatches {
 		return OSMUtil.GetNodeById(osmData, up1)
-	} else if down1 == up2 || down1 == down2 {
+	} else if downMatches {
 		return OSMUtil.GetNodeById(osmData, down1)
 	} else {
 		return findClosestMatch(osmData, up1, up2, down1, down2, math.Abs(upDist1-dist1), math.Abs(upDist2-dist2), math.Abs(downDist1-dist1), math.Abs(downDist2-dist2))
-- 
2.43.0


From 2c997bf5bc9b08636fe7204ed4cade3391b74d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 54/59] fix: all main signals of a node are anchored

---
 tools/generate-osm/db-utils/mapper/map-signals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/mapper/map-signals.go b/tools/generate-osm/db-utils/mapper/map-signals.go
index c803f54..845eaac 100644
--- a/tools/generate-osm/db-utils/mapper/map-signals.go
+++ b/tools/generate-osm/db-utils/mapper/map-signals.go
@@ -106,7 +106,7 @@ func processHauptsignal(
 					Lat:  matchingSignalNodes[0].Lat,
 					Lon:  matchingSignalNodes[0].Lon,
 				}
-				return nil
+				continue
 			}
 		}
 		conflictingSignalNames[signal.Name.Value] = true
-- 
2.43.0


From f5763db694da37037c67aa3b4fdb1fe52e4064dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 55/59] fix: switches not anchored after one that is are mapped

---
 tools/generate-osm/db-utils/mapper/map-switches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/mapper/map-switches.go b/tools/generate-osm/db-utils/mapper/map-switches.go
index 86e8e42..93c5e73 100644
--- a/tools/generate-osm/db-utils/mapper/map-switches.go
+++ b/tools/generate-osm/db-utils/mapper/map-switches.go
@@ -20,8 +20,8 @@ func FindAndMapAnchorSwitches(
 	foundAnchorCount *int,
 	nodeIdCounter *int,
 ) error {
-	foundSwitch := false
 	for _, switchBegin := range knoten.WeichenAnf {
+		foundSwitch := false
 		for _, node := range osm.Node {
 			if len(node.Tag) == 0 {
 				continue
-- 
2.43.0


From 41f499e01088e64bbac415cf5e9b804453726ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 56/59] fix: stations replaced in the generated file without
 leaving the list

---
 tools/generate-osm/main.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/generate-osm/main.go b/tools/generate-osm/main.go
index 5a4c8f6..0cb65de 100644
--- a/tools/generate-osm/main.go
+++ b/tools/generate-osm/main.go
@@ -198,16 +198,16 @@ func generateOsm(generateLines bool, mapDB bool, inputFile string, outputFile st
 			return errors.Wrap(err, "failed writing stations JSON")
 		}
 
-		for i, node := range outputOsm.Node {
+		remainingNodes := make([]*osmUtils.Node, 0, len(outputOsm.Node))
+		for _, node := range outputOsm.Node {
 			value, found := osmUtils.FindTagOnNode(node, "railway")
 
-			if found == nil {
-				if value == "station" || value == "halt" {
-					outputOsm.Node = append(outputOsm.Node[:i], outputOsm.Node[i+1:]...)
-				}
+			if found == nil && (value == "station" || value == "halt") {
+				continue
 			}
+			remainingNodes = append(remainingNodes, node)
 		}
-		outputOsm.Node = append(outputOsm.Node, stationHaltOsm.Node...)
+		outputOsm.Node = append(remainingNodes, stationHaltOsm.Node...)
 		osmUtils.SortAndRemoveDuplicatesOsm(&outputOsm)
 		osmData = outputOsm
 	}
-- 
2.43.0


From cdc76605da4eda85c7c22999645a591468fc8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 57/59] fix: additional OSM file recognised by its extension

---
 tools/generate-osm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/main.go b/tools/generate-osm/main.go
index 0cb65de..21ea4ef 100644
--- a/tools/generate-osm/main.go
+++ b/tools/generate-osm/main.go
@@ -225,7 +225,7 @@ func generateOsm(generateLines bool, mapDB bool, inputFile string, outputFile st
 }
 
 func insertOsm(modifiedOsm osmUtils.Osm, additionalOsmFile string, maxNewNodeID int) (osmUtils.Osm, error) {
-	if additionalOsmFile[:len(additionalOsmFile)-4] != ".xml" {
+	if filepath.Ext(additionalOsmFile) != ".xml" {
 		return osmUtils.Osm{}, errors.New("additional osm file must be an xml file")
 	}
 
-- 
2.43.0


From 344bcc42e81943695fd290192b6cbb4166a2c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 58/59] fix: the exclusion graph tool loads what the graph is
 made from

---
 tools/export_exclusion_graph/src/export_exclusion_graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/export_exclusion_graph/src/export_exclusion_graph.cc b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
index e321213..d542f07 100644
--- a/tools/export_exclusion_graph/src/export_exclusion_graph.cc
+++ b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
@@ -69,6 +69,7 @@ int main(int argc, char const** argv) {
   opts.layout_ = false;
   opts.interlocking_ = true;
   opts.exclusions_ = true;
+  opts.exclusion_elements_ = true;
   opts.exclusion_graph_ = true;
 
   infrastructure const infra(opts);
-- 
2.43.0


From 526013da64f003b5030fb4d37f920d0d691f351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:02 +0000
Subject: [PATCH 59/59] fix: statistics count and report every kind

---
 include/soro/utls/statistics.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/statistics.h b/include/soro/utls/statistics.h
index 3622a7d..c0b9ad7 100644
--- a/include/soro/utls/statistics.h
+++ b/include/soro/utls/statistics.h
@@ -16,7 +16,7 @@ struct statistics {
 
   explicit statistics(std::map<enum_t, std::string> const& stat_text)
       : stat_texts_{stat_text} {
-    for (auto i = 0; i < static_cast<int>(enum_t::count) - 1; ++i) {
+    for (auto i = 0; i < static_cast<int>(enum_t::count); ++i) {
       stats_.emplace(static_cast<enum_t>(i), 0);
     }
   }
@@ -25,8 +25,7 @@ struct statistics {
   void dec(enum_t const stat) { --stats_[stat]; }
 
   void print() const {
-    for (std::size_t i = 0; i < static_cast<std::size_t>(enum_t::count) - 1;
-         ++i) {
+    for (std::size_t i = 0; i < static_cast<std::size_t>(enum_t::count); ++i) {
       auto const k = static_cast<enum_t>(i);
       uLOG(utl::info) << stat_texts_.at(k) << " " << stats_.at(k);
     }
-- 
2.43.0

