From 8f7b1eba06e0ba77ffee4d190cda1f3444bb0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 01/38] fix: cstr equality must not stop at an embedded NUL
 byte

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 2691fb8..4b43c6b 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -58,7 +58,7 @@ struct cstr {
     } else if (len == 0) {
       return true;
     } else {
-      return strncmp(str, s.str, len) == 0;
+      return std::memcmp(str, s.str, len) == 0;
     }
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
-- 
2.43.0


From db84fb0e42de61dbaeed3914d2d4f296210a8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 02/38] fix: skip_lines must skip the whole line when it ends
 with CRLF

---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 4b43c6b..b900ae2 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -271,8 +271,8 @@ void for_each_line_numbered(cstr s, Function&& f) {
 template <typename Predicate>
 cstr skip_lines(cstr file_content, Predicate skip) {
   while (file_content.len > 0) {
-    cstr line = get_line(file_content);
-    if (!skip(line)) {
+    cstr line = get_until(file_content, '\n');
+    if (!skip(strip_cr(line))) {
       break;
     }
     file_content += line.len;
-- 
2.43.0


From 1eb902b81866aeea08b8885dd3370db86a4c8167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 03/38] fix: line_iterator::operator+ returns the advanced
 iterator and leaves *this alone

---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index b900ae2..59266b1 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -226,9 +226,9 @@ struct line_iterator {
     ++*this;
     return curr;
   }
-  line_iterator operator+(difference_type const n) {
+  line_iterator operator+(difference_type const n) const {
     line_iterator curr = *this;
-    *this += n;
+    curr += n;
     return curr;
   }
 
-- 
2.43.0


From d75c846785a8cf27168f108a959b424791435b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 04/38] fix: every cstr::substr overload stays inside the slice

---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 59266b1..c20f803 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -83,10 +83,10 @@ struct cstr {
   }
   cstr substr(size_t begin, size_t end) const {
     auto const adjusted_begin = std::min(begin, len);
-    auto const adjusted_end = std::min(end, len);
+    auto const adjusted_end = std::clamp(end, adjusted_begin, len);
     return {str + adjusted_begin, adjusted_end - adjusted_begin};
   }
-  cstr substr(size_t begin) const { return {str + begin, len - begin}; }
+  cstr substr(size_t begin) const { return substr(begin, len); }
   cstr substr(field const& f) const {
     return (f.size == field::MAX_SIZE) ? substr(f.from)
                                        : substr(f.from, size(f.size));
-- 
2.43.0


From 98761ad41e0772d4442396883222bb25aaf83b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 05/38] fix: parse_column must not drop bytes when no closing
 quote was consumed

---
 include/utl/parser/csv.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9968734..b6cd7ba 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -28,6 +28,7 @@ inline void parse_column(cstr& s, T& arg) {
 
   auto begin = s;
   int adjust_for_cr = 0;
+  int adjust_for_quote = 0;
   while (s) {
     char c = *s.str;
 
@@ -38,10 +39,11 @@ inline void parse_column(cstr& s, T& arg) {
     }
 
     if (c == end || c == '\r' || c == '\n' || s.len == 0) {
-      if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
+      adjust_for_quote = (end == '"' && c == end) ? -1 : 0;
+      adjust_for_cr = (c == '\r') ? -1 : 0;
+      if (adjust_for_quote != 0 || adjust_for_cr != 0) {
         ++s;
       }
-      adjust_for_cr = (c == '\r') ? -1 : 0;
       break;
     }
 
@@ -50,7 +52,6 @@ inline void parse_column(cstr& s, T& arg) {
     }
   }
 
-  int adjust_for_quote = (end == '"') ? -1 : 0;
   arg.assign(begin.str, static_cast<size_t>((s.str - begin.str) +
                                             adjust_for_quote + adjust_for_cr));
 }
-- 
2.43.0


From a0a9493b4e1907d104270ddc2a38d776a856623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 06/38] fix: parsing the smallest value of a signed integer
 type must not overflow

---
 include/utl/parser/arg_parser.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index d50755a..264b105 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -16,10 +16,12 @@ inline bool parse_arg(
     cstr& s, IntType& arg,
     typename std::enable_if<std::is_integral<IntType>::value, IntType>::type
         default_value = 0) {
-  IntType sign = 1;
+  using unsigned_t = std::make_unsigned_t<IntType>;
+
+  auto negative = false;
   if constexpr (std::is_signed_v<IntType>) {
     if (s && s[0] == '-') {
-      sign = -1;
+      negative = true;
       ++s;
     }
   }
@@ -35,15 +37,17 @@ inline bool parse_arg(
     if (c > '9' || c < '0') {
       break;
     }
-    arg = arg * 10 + static_cast<IntType>(c - '0');
+    // unsigned arithmetic: the magnitude of the smallest value does not fit
+    arg = static_cast<IntType>(static_cast<unsigned_t>(arg) * 10U +
+                               static_cast<unsigned_t>(c - '0'));
     value_okay = true;
     ++s;
   }
 
   if (!value_okay) {
     arg = default_value;
-  } else {
-    arg *= sign;
+  } else if (negative) {
+    arg = static_cast<IntType>(0U - static_cast<unsigned_t>(arg));
   }
 
   return value_okay && s.empty();
-- 
2.43.0


From 2302792bf1990112ac214484503e46ac561c21b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 07/38] fix: floating point values beyond the range of int are
 parsed correctly

---
 include/utl/parser/arg_parser.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index 264b105..f5b9877 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -66,8 +66,15 @@ inline bool parse_fp(cstr& s, T& v) {
     ++s;
   }
 
-  int pre_point;
-  parse_arg(s, pre_point);
+  if (s && *s.str == '+') {
+    ++s;
+  }
+
+  auto pre_point = 0.0;
+  while (s && *s.str >= '0' && *s.str <= '9') {
+    pre_point = pre_point * 10.0 + (*s.str - '0');
+    ++s;
+  }
   v = static_cast<T>(pre_point);
   if (s.len == 0) {
     v *= sign;
-- 
2.43.0


From cb29528032be71122d71dec12c29d804f0b6f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 08/38] fix: parsing a path must not read past the end of the
 slice

---
 include/utl/parser/arg_parser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index f5b9877..b53da5f 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -146,7 +146,9 @@ inline void parse_arg(cstr& s, cista::raw::generic_string& arg) {
   arg.set_non_owning(s.str, static_cast<unsigned>(s.len));
 }
 
-inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.str; }
+inline void parse_arg(cstr& s, std::filesystem::path& arg) {
+  arg = s.view();
+}
 
 template <typename T>
 inline T parse(cstr s) {
-- 
2.43.0


From 42d7e02927a5bd87341af31898b09680ad56b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 09/38] fix: parallel_for error records name the failed job
 instead of reading a dead loop variable

---
 include/utl/parallel_for.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 5d75804..0399baa 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -47,7 +47,7 @@ inline errors_t parallel_for_run_threadlocal(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(idx, std::current_exception());
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
@@ -90,7 +90,7 @@ inline errors_t parallel_for_run(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(idx, std::current_exception());
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
-- 
2.43.0


From 43e351b949d7b28ab9912123ccf3419e1929b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 10/38] fix: take_while must not read past the end of a finite
 range

---
 include/utl/pipes/take_while.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index ca02a27..6a7bffb 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -18,7 +18,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename It>
   bool valid(It& it) {
-    return take_while_.fn_(this->read(it));
+    return parent_t::valid(it) && take_while_.fn_(this->read(it));
   }
 
   TakeWhile take_while_;
-- 
2.43.0


From d70917908122910aad2b71a9cb689f1f0cb7d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 11/38] fix: make_range must not return a reference to a local
 range

---
 include/utl/pipes/make_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 02aa10e..b45dbe9 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -10,10 +10,10 @@
 namespace utl {
 
 template <typename T>
-auto&& make_range(T&& t) {
+decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return t;
+    return static_cast<T&&>(t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
-- 
2.43.0


From 9e762784fdd18965efbb9af5dd44302478279782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 12/38] fix: unique, take_while and iterable must not move from
 an lvalue range

---
 include/utl/pipes/iterable.h   | 2 +-
 include/utl/pipes/take_while.h | 2 +-
 include/utl/pipes/unique.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/pipes/iterable.h b/include/utl/pipes/iterable.h
index 8baeabf..b52be78 100644
--- a/include/utl/pipes/iterable.h
+++ b/include/utl/pipes/iterable.h
@@ -30,7 +30,7 @@ template <typename Range>
 struct iterable_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
   iterable_range() = default;
-  explicit iterable_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  explicit iterable_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
   auto begin() { return it{*this, parent_t::begin()}; }
   auto end() { return end_it{}; }
   friend auto begin(iterable_range const& r) { return r.begin(); }
diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index 6a7bffb..bfe0090 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -13,7 +13,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename R>
   take_while_range(R&& r, TakeWhile&& take_while)
-      : parent_t(std::forward<parent_t>(r)),
+      : parent_t(std::forward<R>(r)),
         take_while_(std::forward<TakeWhile>(take_while)) {}
 
   template <typename It>
diff --git a/include/utl/pipes/unique.h b/include/utl/pipes/unique.h
index 9a11954..487e67f 100755
--- a/include/utl/pipes/unique.h
+++ b/include/utl/pipes/unique.h
@@ -11,7 +11,7 @@ template <typename Range>
 struct unique_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
 
-  unique_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  unique_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
 
   template <typename It>
   void find(It& it) {
-- 
2.43.0


From 9201099750af8350fa3bcba5662291e31400c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 13/38] fix: is_uniform must not modify its input and accepts
 an empty range

---
 include/utl/is_uniform.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index a4e58be..16d160f 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -7,24 +7,26 @@ namespace utl {
 
 template <typename It1, typename It2, typename Predicate>
 bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (fn(*it) != fn(pred)) {
+  if (it1 == it2) {
+    return true;
+  }
+  for (auto pred = it1, it = std::next(it1); it != it2; ++pred, ++it) {
+    if (fn(*it) != fn(*pred)) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
 
 template <typename It1, typename It2>
 bool is_uniform(It1&& it1, It2&& it2) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (*it != pred) {
+  if (it1 == it2) {
+    return true;
+  }
+  for (auto pred = it1, it = std::next(it1); it != it2; ++pred, ++it) {
+    if (*it != *pred) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
-- 
2.43.0


From ad9c4340d0c5bd7b653886486d0047a554c14708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 14/38] fix: is_uniform with a collection and a predicate was
 never callable

---
 include/utl/is_uniform.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index 16d160f..0293076 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -39,8 +39,8 @@ bool is_uniform(Collection&& c) {
 }
 
 template <typename Collection, typename Predicate>
-std::enable_if_t<std::is_function_v<Predicate>, bool> is_uniform(
-    Collection&& c, Predicate&& fn) {
+  requires requires(Collection&& c, Predicate&& fn) { fn(*std::begin(c)); }
+bool is_uniform(Collection&& c, Predicate&& fn) {
   using std::begin;
   using std::end;
   return is_uniform(begin(c), end(c), std::forward<Predicate&&>(fn));
-- 
2.43.0


From 262f1be1dc276cf41cac99978833c0625522fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 15/38] fix: the distance between enumerate iterators ignores
 the index of end()

---
 include/utl/enumerate.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index c87b7cc..f4ee3c0 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -20,7 +20,12 @@ struct iterator {
   using pointer = std::add_pointer_t<value_type>;
 
   difference_type operator-(iterator const& o) const {
-    return static_cast<std::ptrdiff_t>(i_) - static_cast<std::ptrdiff_t>(o.i_);
+    if constexpr (std::random_access_iterator<It>) {
+      return static_cast<difference_type>(iter_ - o.iter_);
+    } else {
+      return static_cast<std::ptrdiff_t>(i_) -
+             static_cast<std::ptrdiff_t>(o.i_);
+    }
   }
 
   bool operator!=(iterator const& o) const { return iter_ != o.iter_; }
-- 
2.43.0


From 869c225f5b34b334b607be047be950385439febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 16/38] fix: enumerate post increment and decrement did not
 compile

---
 include/utl/enumerate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index f4ee3c0..7d418cf 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -42,13 +42,13 @@ struct iterator {
     --iter_;
   }
 
-  iterator operator++(int) const {
+  iterator operator++(int) {
     auto tmp = *this;
     ++(*this);
     return tmp;
   }
 
-  iterator operator--(int) const
+  iterator operator--(int)
     requires(std::bidirectional_iterator<It>)
   {
     auto tmp = *this;
-- 
2.43.0


From 96fe3a6f5a5d690292e4a2094d34a9cf967d905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 17/38] fix: moving a generator must not destroy its coroutine
 twice

---
 include/utl/generator.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index 4f2b3c8..aad5bd9 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,5 +1,6 @@
 #include <coroutine>
 #include <exception>
+#include <utility>
 
 namespace utl {
 
@@ -27,7 +28,23 @@ struct generator {
 
   generator(handle_type h) : h_(h) {}
 
-  ~generator() { h_.destroy(); }
+  generator(generator const&) = delete;
+  generator& operator=(generator const&) = delete;
+
+  generator(generator&& o) noexcept
+      : h_(std::exchange(o.h_, nullptr)),
+        full_(std::exchange(o.full_, false)) {}
+  generator& operator=(generator&& o) noexcept {
+    std::swap(h_, o.h_);
+    std::swap(full_, o.full_);
+    return *this;
+  }
+
+  ~generator() {
+    if (h_) {
+      h_.destroy();
+    }
+  }
 
   explicit operator bool() {
     if (h_.done()) {
-- 
2.43.0


From 46c9d827313abc563d45af60ea75673488aa95ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 18/38] fix: line_range must not stop at the first blank line

---
 include/utl/parser/csv_range.h  | 10 ++++++++--
 include/utl/parser/line_range.h |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/csv_range.h b/include/utl/parser/csv_range.h
index 3f3077b..21a34d3 100644
--- a/include/utl/parser/csv_range.h
+++ b/include/utl/parser/csv_range.h
@@ -106,7 +106,7 @@ struct csv_range : public LineRange {
 
   std::optional<T> begin() {
     cstr s;
-    LineRange::next(s);
+    next_line(s);
     if (LineRange::valid(s)) {
       return read_row(s);
     } else {
@@ -122,7 +122,7 @@ struct csv_range : public LineRange {
   template <typename It>
   void next(It& it) {
     cstr s;
-    LineRange::next(s);
+    next_line(s);
     if (LineRange::valid(s)) {
       it = read_row(s);
     } else {
@@ -135,6 +135,12 @@ struct csv_range : public LineRange {
     return it.has_value();
   }
 
+  void next_line(cstr& s) {
+    do {
+      LineRange::next(s);
+    } while (LineRange::valid(s) && s.empty());  // skip blank lines
+  }
+
   std::array<column_idx_t, MAX_COLUMNS> headers_permutation_;
 };
 
diff --git a/include/utl/parser/line_range.h b/include/utl/parser/line_range.h
index 5255be2..8e50bfc 100644
--- a/include/utl/parser/line_range.h
+++ b/include/utl/parser/line_range.h
@@ -22,7 +22,7 @@ struct line_range {
 
   template <typename It>
   bool valid(It& it) {
-    return it.valid();
+    return it.data() != nullptr;
   }
 
   Reader r_;
-- 
2.43.0


From a9dc7eab6cf0afcacbabd16714c31158011e6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 19/38] fix: assigning to a buffer must not leak its memory

---
 include/utl/parser/buffer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 7d1ba8a..3442543 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -3,6 +3,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <new>
+#include <utility>
 
 #include "utl/verify.h"
 
@@ -37,10 +38,8 @@ struct buffer final {
   }
 
   buffer& operator=(buffer&& o) noexcept {
-    buf_ = o.buf_;
-    size_ = o.size_;
-    o.buf_ = nullptr;
-    o.size_ = 0;
+    std::swap(buf_, o.buf_);
+    std::swap(size_, o.size_);
     return *this;
   }
 
-- 
2.43.0


From d4d5abf9b09798821463281de5ff930df1d5fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 20/38] fix: assigning to a mmap_reader must not leak its
 mapping and descriptor

---
 include/utl/parser/mmap_reader_unix.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index abf6dd4..6e67a84 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -30,10 +30,8 @@ struct mmap_reader {
     }
 
     file& operator=(file&& o) noexcept {
-      fd_ = o.fd_;
-      size_ = o.size_;
-      o.fd_ = -1;
-      o.size_ = 0;
+      std::swap(fd_, o.fd_);
+      std::swap(size_, o.size_);
       return *this;
     }
 
@@ -76,9 +74,8 @@ struct mmap_reader {
     }
 
     memory_map& operator=(memory_map&& o) noexcept {
-      f_ = std::move(o.f_);
-      fmap_ = o.fmap_;
-      o.fmap_ = nullptr;
+      std::swap(f_, o.f_);
+      std::swap(fmap_, o.fmap_);
       return *this;
     }
 
-- 
2.43.0


From cecf0b8e40085b5682fba1b60169728a49fb975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 21/38] fix: mmap_reader opens empty files

---
 include/utl/parser/mmap_reader_unix.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index 6e67a84..3752a9b 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -61,8 +61,10 @@ struct mmap_reader {
   struct memory_map {
     explicit memory_map(char const* path)
         : f_{path},
-          fmap_{static_cast<char*>(
-              mmap(nullptr, f_.size_, PROT_READ, MAP_PRIVATE, f_.fd_, 0))} {
+          fmap_{f_.size_ == 0U
+                    ? nullptr  // an empty file cannot be mapped
+                    : static_cast<char*>(mmap(nullptr, f_.size_, PROT_READ,
+                                              MAP_PRIVATE, f_.fd_, 0))} {
       if (fmap_ == MAP_FAILED) {  // NOLINT
         throw std::runtime_error("cannot memory map file");
       }
@@ -132,7 +134,9 @@ struct mmap_reader {
   }
 
   float progress() const {
-    return (it_ - m_.ptr()) / static_cast<float>(m_.size());
+    return m_.size() == 0U
+               ? 1.F
+               : (it_ - m_.ptr()) / static_cast<float>(m_.size());
   }
 
   memory_map m_;
-- 
2.43.0


From c28e7f8b9ceee2fdfcb43f8d1324c85e396be868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 22/38] fix: shrinking a buffer to zero bytes must not free its
 memory twice

---
 include/utl/parser/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 3442543..36d3341 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -54,7 +54,8 @@ struct buffer final {
   inline unsigned char* end() { return data() + size_; }
 
   inline void resize(std::size_t new_size) {
-    if (void* tmp = std::realloc(buf_, new_size)) {
+    // realloc to zero bytes would free the memory buf_ still points to
+    if (void* tmp = std::realloc(buf_, new_size == 0U ? 1U : new_size)) {
       buf_ = tmp;
       size_ = new_size;
     } else {
-- 
2.43.0


From 4a92548083b5b4e3c7d8bf19324d8e2a375e0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 23/38] fix: to_set with an iterator pair did not compile

---
 include/utl/to_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/to_set.h b/include/utl/to_set.h
index 657bdee..1619e1e 100644
--- a/include/utl/to_set.h
+++ b/include/utl/to_set.h
@@ -10,8 +10,8 @@ template <typename It, typename UnaryOperation>
 inline auto to_set(It b, It e,
                    UnaryOperation&& op) -> std::set<decltype(op(*b))> {
   using set = std::set<decltype(op(*b))>;
-  set s(std::distance(s, e));
-  std::transform(b, e, std::insert_iterator<set>(s), op);
+  set s;
+  std::transform(b, e, std::insert_iterator<set>(s, s.begin()), op);
   return s;
 }
 
-- 
2.43.0


From 5f8b9c848f70e01fb181671913240c8260003366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 24/38] fix: a moved utl::finally runs its action exactly once

---
 include/utl/raii.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 508333d..ec9b409 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -49,13 +49,18 @@ struct finally {
   finally(finally const&) = delete;
   finally& operator=(finally const&) = delete;
 
-  finally(finally&& o) noexcept : destruct_{std::move(o.destruct_)} {
-    o.exec_ = false;
-  }
+  finally(finally&& o) noexcept
+      : exec_{std::exchange(o.exec_, false)},
+        destruct_{std::forward<DestructFun>(o.destruct_)} {}
 
   finally& operator=(finally&& o) noexcept {
-    destruct_ = std::move(o.destruct_);
-    o.exec_ = false;
+    if (this != &o) {
+      if (exec_) {
+        destruct_();
+      }
+      exec_ = std::exchange(o.exec_, false);
+      destruct_ = std::forward<DestructFun>(o.destruct_);
+    }
     return *this;
   }
 
-- 
2.43.0


From f1e3960312d79f5fb9de18e213714e0da207e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 25/38] fix: jobs are executed even if the number of hardware
 threads is unknown

---
 include/utl/parallel_for.h | 8 ++++++--
 include/utl/thread_pool.h  | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 0399baa..4e4be78 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -32,7 +32,9 @@ inline errors_t parallel_for_run_threadlocal(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  // hardware_concurrency() is allowed to return 0
+  auto const num_threads = std::max(1U, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < num_threads; ++i) {
     threads.emplace_back([&]() {
       auto threadlocal = ThreadLocal{};
 
@@ -77,7 +79,9 @@ inline errors_t parallel_for_run(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  // hardware_concurrency() is allowed to return 0
+  auto const num_threads = std::max(1U, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < num_threads; ++i) {
     threads.emplace_back([&]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index dfaec53..560b6af 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -1,7 +1,8 @@
 #pragma once
 
-#include <condition_variable>
+#include <algorithm>
 #include <atomic>
+#include <condition_variable>
 #include <functional>
 #include <mutex>
 #include <thread>
@@ -21,7 +22,9 @@ struct thread_pool {
         stop_{false},
         job_count_{0},
         counter_{0} {
-    for (auto i = 0U; i < std::thread::hardware_concurrency(); ++i) {
+    // hardware_concurrency() is allowed to return 0
+    auto const num_threads = std::max(1U, std::thread::hardware_concurrency());
+    for (auto i = 0U; i < num_threads; ++i) {
       threads_.emplace_back([&, this] {
         initializer_();
         while (true) {
-- 
2.43.0


From 18ff8e5e9e778b982dd50bb06dd8a5fba0219044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 26/38] fix: a progress tracker without any work must not
 report NaN

---
 src/progress_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 33b2c59..7c3bc4c 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,8 +120,10 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
-                                           static_cast<double>(in_high_));
+  auto const in_ratio =
+      in_high_ == 0U ? 1.F
+                     : static_cast<float>(static_cast<double>(in_) /
+                                          static_cast<double>(in_high_));
 
   auto const new_out = std::clamp(
       out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-- 
2.43.0


From c7c88f0548c80cb8eab6a46f99538b20176f9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 27/38] fix: concurrent progress updates must not leave an
 outdated percentage

---
 src/progress_tracker.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 7c3bc4c..27a0eb2 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,16 +120,22 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio =
-      in_high_ == 0U ? 1.F
-                     : static_cast<float>(static_cast<double>(in_) /
-                                          static_cast<double>(in_high_));
 
-  auto const new_out = std::clamp(
-      out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-      out_low_, out_high_);
+  // Retry if another thread was faster:
+  // a value computed from an outdated in_ must not replace a newer one.
+  auto old_out = out_.load();
+  auto new_out = old_out;
+  do {
+    auto const in_ratio =
+        in_high_ == 0U ? 1.F
+                       : static_cast<float>(static_cast<double>(in_) /
+                                            static_cast<double>(in_high_));
+
+    new_out = std::clamp(
+        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
+        out_low_, out_high_);
+  } while (!out_.compare_exchange_weak(old_out, new_out));
 
-  auto old_out = out_.exchange(new_out);
   if (old_out != new_out) {
     callback_(*this);
   }
-- 
2.43.0


From 7320689c38432ea6a6e80f83fa835773267e37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 28/38] fix: parse_arg: "false" is false even if the default is
 true

---
 include/utl/parser/arg_parser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index b53da5f..64ff4dd 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -127,6 +127,7 @@ inline bool parse_arg(cstr& s, bool& b, bool const default_value = false) {
     for (int i = 0; i < 4 && s; ++i, ++s);
     return ret;
   } else if (c == 'f') {
+    b = false;
     auto const ret = s.len == 5 &&  //
                      std::tolower(s[1]) == 'a' &&  //
                      std::tolower(s[2]) == 'l' &&  //
-- 
2.43.0


From a02ce84424afc5a8a173bd1ffedc82bb7ad50589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 29/38] fix: csv_range skips blank lines in files with CRLF
 line breaks, too

---
 include/utl/parser/csv_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/csv_range.h b/include/utl/parser/csv_range.h
index 21a34d3..5ab9ac0 100644
--- a/include/utl/parser/csv_range.h
+++ b/include/utl/parser/csv_range.h
@@ -138,7 +138,7 @@ struct csv_range : public LineRange {
   void next_line(cstr& s) {
     do {
       LineRange::next(s);
-    } while (LineRange::valid(s) && s.empty());  // skip blank lines
+    } while (LineRange::valid(s) && strip_cr(s).empty());  // skip blank lines
   }
 
   std::array<column_idx_t, MAX_COLUMNS> headers_permutation_;
-- 
2.43.0


From 6b8593aef53e6ade0b36aff72f4b1025c6f9b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 30/38] fix: iterator_facade: a sentinel is the sentinel_type
 of the iterator

---
 include/utl/iterator_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 201e355..6e113d7 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -111,7 +111,7 @@ template <typename T>
 concept iter_is_single_pass = bool(T::single_pass_iterator);
 
 template <typename T, typename Iter>
-concept iter_sentinel = std::is_same_v<T, typename T::sentinel_type>;
+concept iter_sentinel = std::is_same_v<T, typename Iter::sentinel_type>;
 
 // clang-format on
 
-- 
2.43.0


From 84f67b5e4915d7d569256ab75aa5d0cac85459a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 31/38] fix: iterator_facade: advance(n) alone is enough to
 increment and decrement

---
 include/utl/iterator_facade.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 6e113d7..502228e 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -104,7 +104,7 @@ iter_has_advance_method<T>;
 
 template <typename T>
 concept iter_is_bidirectional =
-iter_is_random_access<T> ||
+iter_has_advance_method<T> ||
 iter_has_decrement_method<T>;
 
 template <typename T>
@@ -274,12 +274,12 @@ public:
       // If there is an increment(), assume it is the most efficient way to
       // advance, even if we have an advance()
       _self().increment();
-    } else if constexpr (detail::iter_is_random_access<self_type>) {
+    } else if constexpr (detail::iter_has_advance_method<self_type>) {
       // Just offset by one
-      _self() += 1;
+      _self().advance(1);
     } else {
       // Bad!
-      static_assert(detail::iter_is_random_access<self_type>,
+      static_assert(detail::iter_has_advance_method<self_type>,
                     "Iterator subclass must provide an `increment` or "
                     "`advance(n)` method");
     }
@@ -304,7 +304,7 @@ public:
     if constexpr (detail::iter_has_decrement_method<self_type>) {
       _self().decrement();
     } else {
-      _self() -= 1;
+      _self().advance(-1);
     }
     return _self();
   }
@@ -481,8 +481,8 @@ public:
   // clang-format off
   constexpr auto distance_to(const self_type& other) const noexcept
   requires std::is_base_of_v<
-      typename std::iterator_traits<InnerIterator>::iterator_category,
-      std::random_access_iterator_tag> {
+      std::random_access_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     return other.wrapped_iterator - wrapped_iterator;
   }
   // clang-format on
-- 
2.43.0


From 033f86828c96ae7466fb4e4bb599372b10072546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 32/38] fix: a moved or copied utl::file must not close its
 file twice

---
 include/utl/parser/file.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 9be1e1a..df400fa 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <string>
+#include <utility>
 
 #ifdef _MSC_VER
 #include <cstdio>
@@ -57,6 +58,18 @@ struct file {
     }
   }
 
+  file(file&& o) noexcept
+      : f_{std::exchange(o.f_, nullptr)}, filename_{std::move(o.filename_)} {}
+
+  file& operator=(file&& o) noexcept {
+    std::swap(f_, o.f_);
+    std::swap(filename_, o.filename_);
+    return *this;
+  }
+
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
   size_t size() {
     LARGE_INTEGER filesize;
     check(GetFileSizeEx(f_, &filesize), "get file size error");
@@ -154,6 +167,18 @@ struct file {
     f_ = nullptr;
   }
 
+  file(file&& o) noexcept
+      : f_{std::exchange(o.f_, nullptr)}, filename_{std::move(o.filename_)} {}
+
+  file& operator=(file&& o) noexcept {
+    std::swap(f_, o.f_);
+    std::swap(filename_, o.filename_);
+    return *this;
+  }
+
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
   size_t size() {
     auto err = std::fseek(f_, 0, SEEK_END);
     verify(!err, "fseek to SEEK_END error: {}", filename_);
-- 
2.43.0


From 1e41930173b35fb5af6739a2686f734cc1a2b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 33/38] fix: printable enum names must not end in a blank

---
 include/utl/printable_enum.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utl/printable_enum.h b/include/utl/printable_enum.h
index 7b6f269..88ffc0c 100644
--- a/include/utl/printable_enum.h
+++ b/include/utl/printable_enum.h
@@ -15,7 +15,9 @@
         ++c;                                                         \
       }                                                              \
       start = c;                                                     \
-      c = std::find(std::next(c), end(s), ',');                      \
+      c = std::find_if(std::next(c), end(s), [](char const x) {      \
+        return x == ' ' || x == ',';                                 \
+      });                                                            \
     }                                                                \
     return {start, c};                                               \
   }                                                                  \
-- 
2.43.0


From de3604a9cc906b405c39e2ad1b5adf28e32cdfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 34/38] fix: sort_by.h and generator.h could not be included
 twice

---
 include/utl/generator.h | 4 ++++
 include/utl/sort_by.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index aad5bd9..ee68c4c 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,6 +1,10 @@
+#pragma once
+
+#include <concepts>
 #include <coroutine>
 #include <exception>
 #include <utility>
+#include <vector>
 
 namespace utl {
 
diff --git a/include/utl/sort_by.h b/include/utl/sort_by.h
index 9aa3767..7add935 100644
--- a/include/utl/sort_by.h
+++ b/include/utl/sort_by.h
@@ -1,3 +1,5 @@
+#pragma once
+
 #include <vector>
 
 #include <algorithm>
-- 
2.43.0


From 0863166cdc3fd9294613f678c239054fdfbe2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 35/38] fix: headers lacked includes they need

---
 include/utl/for_each_line_in_file.h | 3 ++-
 include/utl/get_or_create_index.h   | 2 ++
 include/utl/insert_sorted.h         | 1 +
 include/utl/overloaded.h            | 2 ++
 include/utl/parser/line_range.h     | 2 ++
 include/utl/pipes/generate.h        | 1 +
 include/utl/pipes/iterable.h        | 3 +++
 include/utl/sorted_diff.h           | 1 +
 8 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/utl/for_each_line_in_file.h b/include/utl/for_each_line_in_file.h
index d2e7f0c..de24357 100755
--- a/include/utl/for_each_line_in_file.h
+++ b/include/utl/for_each_line_in_file.h
@@ -1,6 +1,7 @@
 #pragma once
 
-#include <fstream>
+#include <fstream>
+#include <iostream>
 #include <istream>
 #include <string>
 
diff --git a/include/utl/get_or_create_index.h b/include/utl/get_or_create_index.h
index a99a913..44c4939 100644
--- a/include/utl/get_or_create_index.h
+++ b/include/utl/get_or_create_index.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cstddef>
+
 namespace utl {
 
 template <typename Map, typename K>
diff --git a/include/utl/insert_sorted.h b/include/utl/insert_sorted.h
index 04e0c2e..5f5a9fe 100644
--- a/include/utl/insert_sorted.h
+++ b/include/utl/insert_sorted.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>
+#include <iterator>
 #include <utility>
 
 namespace utl {
diff --git a/include/utl/overloaded.h b/include/utl/overloaded.h
index 2a6ee29..445fd8a 100644
--- a/include/utl/overloaded.h
+++ b/include/utl/overloaded.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <type_traits>
+
 namespace utl {
 
 template <typename Ret, typename Arg, typename... Rest>
diff --git a/include/utl/parser/line_range.h b/include/utl/parser/line_range.h
index 8e50bfc..5157647 100644
--- a/include/utl/parser/line_range.h
+++ b/include/utl/parser/line_range.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <utility>
+
 #include "utl/pipes/is_range.h"
 
 namespace utl {
diff --git a/include/utl/pipes/generate.h b/include/utl/pipes/generate.h
index ea0e5ef..defd675 100644
--- a/include/utl/pipes/generate.h
+++ b/include/utl/pipes/generate.h
@@ -3,6 +3,7 @@
 #include <type_traits>
 #include <utility>
 
+#include "utl/clear_t.h"
 #include "utl/pipes/is_range.h"
 
 namespace utl {
diff --git a/include/utl/pipes/iterable.h b/include/utl/pipes/iterable.h
index b52be78..86dbc82 100644
--- a/include/utl/pipes/iterable.h
+++ b/include/utl/pipes/iterable.h
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <cstddef>
+#include <iterator>
+
+#include "utl/clear_t.h"
 
 namespace utl {
 
diff --git a/include/utl/sorted_diff.h b/include/utl/sorted_diff.h
index 6dfef47..89cdda8 100644
--- a/include/utl/sorted_diff.h
+++ b/include/utl/sorted_diff.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <string_view>
 #include <utility>
 
-- 
2.43.0


From 3b96169162e22c918555718b4913384e86400cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 36/38] fix: cstr::operator< orders bytes above 127 behind the
 others, like std::string_view

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index c20f803..f183e15 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -63,7 +63,7 @@ struct cstr {
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
   bool operator<(cstr const& s) const {
-    return std::lexicographical_compare(str, str + len, s.str, s.str + s.len);
+    return view() < s.view();
   }
   char operator[](size_t i) const { return str[i]; }
   explicit operator bool() const { return valid(); }
-- 
2.43.0


From b4c88cd9b33004faab7e5ee8ef28d93932be589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 37/38] fix: enumerate: iterators counted from zero again when
 moved back from end()

---
 include/utl/enumerate.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index 7d418cf..f8d2af5 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -96,8 +96,20 @@ constexpr auto enumerate(T&& iterable) {
     }
 
     auto end() {
+      using std::begin;
       using std::end;
-      return iterator<TIter>{0U, end(iterable_)};
+      auto size = std::size_t{0U};
+      if constexpr (std::random_access_iterator<TIter>) {
+        size = static_cast<std::size_t>(end(iterable_) - begin(iterable_));
+      } else if constexpr (std::forward_iterator<TIter>) {
+        if constexpr (requires { iterable_.size(); }) {
+          size = static_cast<std::size_t>(iterable_.size());
+        } else {
+          size = static_cast<std::size_t>(
+              std::distance(begin(iterable_), end(iterable_)));
+        }
+      }
+      return iterator<TIter>{size, end(iterable_)};
     }
 
     T iterable_;
-- 
2.43.0


From 1be0a89ec3d3d489399e6089c65d1937476ca040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:40 +0000
Subject: [PATCH 38/38] fix: avg added up as size_t, negative numbers and
 fractions were lost

---
 include/utl/pipes/avg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/avg.h b/include/utl/pipes/avg.h
index 5d81b36..60ad8e0 100644
--- a/include/utl/pipes/avg.h
+++ b/include/utl/pipes/avg.h
@@ -9,7 +9,7 @@ namespace utl {
 struct avg_t {
   template <typename T>
   friend double operator|(T&& r, avg_t) {
-    auto sum = std::size_t{0};
+    auto sum = 0.0;
     auto count = std::size_t{0};
     auto it = r.begin();
     while (r.valid(it)) {
@@ -17,7 +17,7 @@ struct avg_t {
       ++count;
       r.next(it);
     }
-    return static_cast<double>(sum) / static_cast<double>(count);
+    return sum / static_cast<double>(count);
   }
 };
 
-- 
2.43.0

